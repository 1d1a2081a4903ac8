"""C22: printed descriptions state the parameters of the object."""
import itertools
import re
import numpy as np
from vk import structs

PROPERTY = "C22"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "a description lists 'name = value' pairs; values are compared within the "
    "rounding of the printed digits and with the printed unit",
    "which parameters are listed is the present choice of the library",
]
BOUNDS = {
    "quick": "7 shape kinds x all parameter tuples over 3 values; structures "
             "of up to 3 layers with up to 2 shapes each and up to 2 wells; "
             "every history of up to 2 runs over 6 option sets for the "
             "slab, 2D, exciton and polariton solvers",
    "thorough": "4 parameter values; histories of 3 runs",
}
UNIT = {"eV": 1., "meV": 1e-3, "ueV": 1e-6, "nm": 1e-9, "um": 1e-6, "m": 1.,
        "kg": 1., "m^-2": 1.}
NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def pairs(text):
    """[(name, [(value, resolution)...], unit, raw)] in order."""
    out = []
    for m in re.finditer(r"([A-Za-z_]\w*) = ", text):
        rest = text[m.end():]
        if re.match(r"array\(\[|\[", rest):
            v = rest[:rest.index("]") + 1]
        else:
            v = re.match(r"[^,()\n\[]*", rest).group()
        tail = rest[len(v):]
        nums = []
        for t in re.findall(NUM, re.sub(r"^array\(", "", v)):
            man, _, ex = t.lower().partition("e")
            dec = len(man.partition(".")[2])
            nums.append((float(t), .5000001 * 10.**(int(ex or 0) - dec)))
        u = re.match(r"[^,\n]*?(m\^-2|ueV|meV|eV|kg|nm|um|m)\s*[,)\n]",
                     v + tail if "[" not in v else tail)
        out.append((m.group(1), nums, u.group(1) if u else "", v.strip()))
    return out


def match(R, key, text, want, also=()):
    """want: list of (name alternatives, value) expected in this order;
    none of the names in also may be listed otherwise."""
    got = pairs(text)
    names = set(n for a, _ in want for n in a) | set(also)
    got = [g for g in got if g[0] in names]
    R.trace()
    R.outcome(text)
    if not R.check(len(got) == len(want), key + ": listed",
                   "%d values listed, expected %d: %r" % (len(got), len(want),
                                                          text)):
        return
    for (n, nums, u, raw), (alt, val) in zip(got, want):
        ok = n in alt
        if isinstance(val, str) or val is None:
            ok = ok and raw.strip("'\"") == str(val)
        else:
            v = np.ravel(np.asarray(val, float))
            ok = ok and len(nums) == len(v) and all(
                abs(a * UNIT.get(u, 1.) - b) <= (r if r < .4 else 1e-9) *
                UNIT.get(u, 1.) + 1e-9 * abs(b)
                for (a, r), b in zip(nums, v))
        if not R.check(ok, "%s: %s" % (key, alt[0]), "printed %s = %s%s, "
                       "expected %s = %s: %r" % (n, raw, " " + u, alt[0], val,
                                                 text)):
            return


X, Y = ("x", "x_cent"), ("y", "y_cent")
PX, PY = ("x_edges",), ("y_edges",)


def shape_list(vals):
    v = vals
    for e in (1., 2.25, -3.5):
        for x, y in itertools.product(v, repeat=2):
            for a in v:
                a = abs(a) + .01
                c = dict(eps=e, x_cent=x, y_cent=y)
                w = [(("eps",), e), (X, x), (Y, y)]
                yield "Circle", dict(c, r=a), w + [(("r",), a)]
                yield "Square", dict(c, a=a), w + [(("a",), a)]
                yield "Hexagon", dict(c, a=a), w + [(("a",), a)]
                yield "Poly", dict(eps=e, x_edges=[x, x + a, x],
                                   y_edges=[y, y, y + a]), [
                    (("eps",), e)]
                yield "FourierShape", dict(
                    c, f_as=np.array([a]), npts=40 + int(10 * a)), w + [
                    (("npts",), 40 + int(10 * a))]
                for b, p in itertools.product(v, repeat=2):
                    b = abs(b) + .02
                    yield "Ellipse", dict(c, rx=a, ry=b, phi=p), w + [
                        (("rx",), a), (("ry",), b), (("phi",), p)]


def cases(tier):
    th = tier == "thorough"
    vals = [.125, -.2375, .4] + ([.0625] if th else [])
    out = [dict(kind="shapes", vals=vals)]
    for lat in ("square", "hexagonal", "rect", "oblique"):
        for n in (1, 2, 3):
            out.append(dict(kind="phc", lat=lat, n=n))
        for k in ("gme", "pwe", "exc", "pol"):
            out.append(dict(kind=k, lat=lat, depth=3 if th else 2))
    return out


def run_case(case, R):
    import legume
    globals()["do_" + case["kind"]](legume, case, R)


def do_shapes(l, case, R):
    for n, kw, want in shape_list(case["vals"]):
        R.state((n, repr(kw)))
        R.step()
        s = getattr(l, n)(**kw)
        match(R, n, repr(s), want)
        match(R, n + " (str)", str(s), want)
        R.check(repr(s).startswith(n), n + ": kind", repr(s))
        if n == "Poly":
            a = [p for p in pairs(repr(s)) if p[0] in ("x_edges", "y_edges")]
            for (nm, nums, _, raw), v in zip(a, (kw["x_edges"],
                                                 kw["y_edges"])):
                g = [t for t, _ in nums][:3]
                R.check(np.allclose(g, v, atol=1e-7), "Poly: " + nm, raw)
    for lat in (("square",), ("hexagonal",), ([1., .25], [-.5, 2.]),
                ([.125, -3.], [1., 0.])):
        L = l.Lattice(*lat)
        t = [float(x) for x in re.findall(NUM, repr(L).replace("a1", "").
                                          replace("a2", ""))]
        w = np.r_[np.ravel(L.a1)[:2], np.ravel(L.a2)[:2]]
        R.trace()
        R.check(np.allclose(t, w, atol=6e-5), "Lattice", repr(L))


def do_phc(l, case, R):
    shp = [("Circle", dict(eps=2., x_cent=.25, y_cent=-.125, r=.2)),
           ("Square", dict(eps=3., x_cent=.3, y_cent=.1, a=.4))]
    names = [dict(x_cent="x", y_cent="y"), {}]
    sets = [(), (0,), (1,), (0, 1), (1, 0), (0, 0)]
    wells = [dict(z=.05, V_shapes=.02, a=3e-7, M=1.23e-31, E0=1.4, loss=1e-3),
             dict(z=.15, V_shapes=-.5, a=4.5e-7, M=2e-30, E0=2.5, loss=3e-5)]
    for lays in itertools.product(sets, repeat=case["n"]):
        if case["n"] == 3 and len(set(lays)) < 3 and lays[0] != lays[2]:
            continue
        for ws in ((), (0,), (1, 0)):
            phc = l.PhotCryst(structs.lattice(l, case["lat"]))
            want = []
            for i, sh in enumerate(lays):
                d, e = .2 + .25 * i, 12. - 2.5 * i
                phc.add_layer(d=d, eps_b=e)
                want += [(("eps_b",), e), (("d",), d)]
                for j in sh:
                    phc.add_shape(getattr(l, shp[j][0])(**shp[j][1]))
                    want += [((k, names[j].get(k, k)), v)
                             for k, v in shp[j][1].items()]
            for w in ws:
                phc.add_qw(osc_str=[1e16, 1e16, 0.], **wells[w])
                want += [((k,), v) for k, v in wells[w].items()]
            # names used both by shapes and by wells are listed in order
            want = [((("a",) if k[0] == "a" else k), v) for k, v in want]
            R.state((case["lat"], lays, ws))
            R.step(1 + case["n"] + len(ws))
            match(R, "PhotCryst", repr(phc), want)
            for i, y in enumerate(phc.layers):
                R.check(repr(y) in repr(phc), "PhotCryst: layer", repr(y))


OPTS = [dict(), dict(gmode_inds=[0, 1]), dict(gmode_compute="interp"),
        dict(gmode_step=2e-3, gradients="approx"),
        dict(eig_sigma=.25, eps_eff="background"),
        dict(eig_solver="eigsh")]
DEF = dict(gmode_compute="exact", gmode_inds=[0], gmode_step=1e-2,
           gradients="exact", eig_solver="eigh", eig_sigma=0.,
           eps_eff="average")
K = np.array([[.4], [.3]])


def base(l, lat):
    phc = l.PhotCryst(structs.lattice(l, lat))
    phc.add_layer(d=.4, eps_b=10.)
    phc.add_shape(l.Circle(eps=1., r=.2))
    return phc


def histories(depth, n):
    for k in range(depth + 1):
        yield from itertools.product(range(n), repeat=k)


def do_gme(l, case, R):
    phc = base(l, case["lat"])
    for gmax in (1.3, 2.):
        for h in histories(case["depth"], len(OPTS)):
            if gmax == 2. and len(h) > 1:
                continue
            g = l.GuidedModeExp(phc, gmax=gmax)
            want = [(("gmax",), gmax)]
            for i in h:
                g.run(kpoints=K, numeig=2, verbose=False, compute_im=False,
                      **OPTS[i])
                want = want[:1] + [((k,), v)
                                   for k, v in dict(DEF, **OPTS[i]).items()]
            R.state((case["lat"], gmax, h))
            R.step(len(h) + 1)
            match(R, "GuidedModeExp", repr(g), want, DEF)


def do_pwe(l, case, R):
    y = base(l, case["lat"]).layers[0]
    O = [dict(), dict(pol="tm"), dict(numeig=3), dict(pol="te", numeig=1),
         dict(pol="TM")]
    for gmax, ee in itertools.product((1.3, 2.01), (None, 7.5)):
        for h in histories(case["depth"], len(O)):
            p = l.PlaneWaveExp(y, gmax=gmax, eps_eff=ee)
            want = [(("gmax",), gmax),
                    (("eps_eff",), 10. if ee is None else ee)]
            if len(h) and gmax == 1.3 and any("numeig" not in O[i]
                                              for i in h):
                continue        # fewer plane waves than the default numeig
            for i in h:
                p.run(kpoints=K, **O[i])
                q = dict(dict(pol="te", numeig=10), **O[i])
                want = want[:2] + [(("pol",), q["pol"]),
                                   (("numeig",), q["numeig"])]
            R.state((case["lat"], gmax, ee, h))
            R.step(len(h) + 1)
            t = repr(p)
            match(R, "PlaneWaveExp", t if "TM" not in str(want) else
                  t.replace("'tm'", "'TM'"), want,
                  ("pol", "numeig"))


def do_exc(l, case, R):
    phc = base(l, case["lat"])
    for a, M, E0, loss, z, V, osc, gmax in itertools.product(
        (3e-7, 4.5e-7), (1.2e-31, 2e-30), (1.4, 2.), (0., 1e-3, 2.5e-5),
            (.1, .25), (.02, -1.), (None, [1e16, 2e16, 0.]), (1.1, 2.)):
        x = l.ExcitonSchroedEq(phc=phc, z=z, V_shapes=V, a=a, M=M, E0=E0,
                               loss=loss, osc_str=None if osc is None
                               else np.array(osc), gmax=gmax)
        want = [(("gmax",), gmax), (("a",), a), (("M",), M), (("E0",), E0),
                (("loss",), loss), (("z",), z), (("V_shapes",), V)]
        if osc is not None:
            want.append((("osc_str",), osc))
        R.state((case["lat"], a, M, E0, loss, z, V, osc is None, gmax))
        R.step(2)
        match(R, "ExcitonSchroedEq", repr(x), want)


def do_pol(l, case, R):
    phc = base(l, case["lat"])
    for z in (.1, .25):
        phc.add_qw(z=z, V_shapes=.01, a=3e-7, M=1e-31, E0=1.4, loss=1e-4,
                   osc_str=np.array([1e16, 1e16, 0.]))
    O = OPTS[:5]
    for h in histories(case["depth"], len(O)):
        p = l.HopfieldPol(phc, 1.3)
        want = [(("gmax",), 1.3)]
        for i in h:
            p.run(gme_options=dict(numeig=2, verbose=False, **O[i]),
                  exc_options=dict(numeig_ex=2, verbose_ex=False), kpoints=K,
                  verbose=False)
            want = want[:1] + [((k,), v)
                               for k, v in dict(DEF, **O[i]).items()]
        R.state((case["lat"], h))
        R.step(len(h) + 1)
        match(R, "HopfieldPol", repr(p), want + [(("z",), .1),
                                                 (("z",), .25)], DEF)
