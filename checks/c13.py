"""C13: results depend on the last request only (histories of public calls)."""
import copy
import itertools
import numpy as np
import scipy.constants as sc
from vk import structs
from vk.stacks import S

PROPERTY = "C13"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "after a rejected run the object either holds no results or exactly the "
    "complete results of the previous run",
    "the caller does not mutate the arrays it passed while the object is in use",
]
BOUNDS = {
    "quick": "slab solver: 2 structures x 2 truncations, 24 operations (9 valid "
             "runs, 7 rejected calls, 8 queries / backend switches / other "
             "objects on the same crystal), every sequence of length <= 2 (1 for "
             "two of the four pairs) followed by every valid run; 2D solver: 12 operations, every "
             "sequence of length <= 3; polariton solver: 9 operations, length "
             "<= 2; structure-building argument immutability",
    "thorough": "slab sequences of length <= 3, 2D of length <= 4, polariton "
                "of length <= 3",
}
K1 = np.array([[.4], [.23]])
K2 = np.array([[1.1, -.3], [.2, 2.]])
K3 = np.array([[.5], [0.]])

GRUNS = {
    "r0": dict(kpoints=K1, gmode_inds=[0], numeig=2),
    "r1": dict(kpoints=K2, gmode_inds=[0, 1], numeig=4, compute_im=False),
    "r2": dict(kpoints=K3, gmode_inds=[0, 1], numeig=2, kz_symmetry="odd",
               angles=np.array([0.])),
    "r3": dict(kpoints=K3, gmode_inds=[1, 2], numeig=3, kz_symmetry="both",
               angles=np.array([0.]), use_sparse=True, compute_im=False),
    "r4": dict(kpoints=K1, gmode_inds=[0, 1], numeig=3, only_gmodes=True),
    "r5": dict(kpoints=K2, gmode_inds=[0], numeig=3, gmode_compute="interp",
               gmode_npts=40),
    "r6": dict(kpoints=K1, gmode_inds=[1], numeig=1, eps_eff="background",
               gradients="approx"),
    "r7": dict(kpoints=K1, gmode_inds=[0, 3], numeig=2, eig_solver="eigsh",
               eig_sigma=.3),
    "r8": dict(gmode_inds=[0, 1], numeig=3),
}
GBAD = {
    "x0": dict(kpoints=K1, gmode_inds=[0, 1], numeig=10**4),
    "x1": dict(kpoints=K1, gmode_inds=[0], numeig=1, eps_eff="none"),
    "x2": dict(kpoints=K3, gmode_inds=[0], numeig=2, kz_symmetry="odd"),
    "x3": dict(kpoints=np.hstack((K3, K1)), gmode_inds=[0, 1], numeig=2,
               kz_symmetry="even", angles=np.array([0., 29.9])),
    "x4": dict(kpoints=K2, gmode_inds=[0, 1], numeig=2, eig_solver="lanczos"),
}
GQ = ["q_im", "q_rad", "q_field", "q_eps", "q_badfield", "q_badkind",
      "b_autograd", "b_numpy", "twin", "opts"]
GOPS = list(GRUNS) + list(GBAD) + GQ


def cases(tier):
    out = []
    th = tier == "thorough"
    for lat, st in (("rect", "hole"), ("square", "sym3")):
        for tr in ("abs", "tbt"):
            # quick: full depth on one truncation per structure
            full = (lat, tr) in (("rect", "abs"), ("square", "tbt"))
            for first in [None] + GOPS:
                if th and first:
                    for second in [None] + GOPS:
                        out.append(dict(kind="gme", lat=lat, st=st, tr=tr,
                                        prefix=[first] + ([second] if second
                                                          else []),
                                        depth=1 if second else 0))
                else:
                    out.append(dict(kind="gme", lat=lat, st=st, tr=tr,
                                    prefix=[first] if first else [],
                                    depth=1 if first and full else 0))
    for lat in ("square", "oblique"):
        for first in [None] + list(POPS):
            out.append(dict(kind="pwe", lat=lat, first=first,
                            depth=3 if th else 2))
    for first in [None] + HOPS:
        out.append(dict(kind="pol", first=first, depth=2 if th else 1))
    out.append(dict(kind="args"))
    return out


S["sym3"] = dict(l=(1.3, [("circle0", 1.6)]), u=(1., []),
                 layers=[(.2, 11., [("circle0", 1.)]), (.1, 3., []),
                         (.15, 9., [("square0", 2.)])])


def same(a, b, tol=1e-9):
    """deep comparison of nested results"""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(
            same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple, np.ndarray)) and len(a) == len(
            b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or a is None:
        return type(a) == type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return all(same(x, y, tol) for x, y in zip(a, b))
    return bool(np.allclose(a, b, rtol=1e-8, atol=tol, equal_nan=True))


def diff(a, b):
    return [k for k in a if not same(a[k], b.get(k))]


def backend_after(hist):
    for op in hist[::-1]:
        if op in ("b_autograd", "b_numpy"):
            return op[2:]
    return "numpy"


def near(a, b):
    """frequencies of two backends agree (up to rounding of their squares)"""
    f, g = np.array(a["freqs"]), np.array(b["freqs"])
    return f.shape == g.shape and np.max(np.abs(f**2 - g**2)) < 1e-9


def gsnap(g):
    """Everything a user can read after a run, phases removed."""
    out = dict(freqs=g.freqs, freqs_im=g.freqs_im, kpoints=g.kpoints,
               unbalance=g.unbalance_sp, rad_coup={
                   k: [[np.abs(z) for z in y] for y in x]
                   for k, x in g.rad_coup.items()},
               rad_gvec=g.rad_gvec, symms=np.array(g.kz_symms),
               eigvecs=[np.abs(np.array(v)) for v in g.eigvecs])
    return copy.deepcopy(out)


def gqueries(g):
    out = {}
    m = len(g.freqs[0]) - 1
    kk = len(g.freqs) - 1
    e = g.get_field_xy("E", kk, m, .12, component="xyz", Nx=3, Ny=2)[0]
    out["E"] = {c: np.abs(np.array(e[c])) for c in e}
    h = g.get_field_yz("H", kk, 0, .1, component="xy", Ny=3, Nz=2)[0]
    out["H"] = {c: np.abs(np.array(h[c])) for c in h}
    out["eps"] = g.get_eps_xy(.1, Nx=3, Ny=4)[0]
    r = g.compute_rad(kk, [0, m])
    out["rad"] = (np.array(r[0]), {k: [np.abs(z) for z in x]
                                   for k, x in r[1].items()})
    return out


def run_case(case, R):
    import legume
    try:
        if case["kind"] == "gme":
            gme_case(case, R, legume)
        elif case["kind"] == "pwe":
            pwe_case(case, R, legume)
        elif case["kind"] == "pol":
            pol_case(case, R, legume)
        else:
            args_case(R, legume)
    finally:
        legume.set_backend("numpy")


def cp(kw):
    return {k: copy.deepcopy(v) for k, v in kw.items()}


def gme_case(case, R, legume):
    lat = structs.lattice(legume, case["lat"])
    tr = case["tr"]
    phc = structs.build_phc(legume, lat, S[case["st"]])
    rep = repr(phc)
    runs = [r for r in GRUNS if not (tr == "tbt" and r == "r4")]
    bad = dict(GBAD)
    if tr == "tbt":
        bad["r4"] = GRUNS["r4"]

    def new():
        return legume.GuidedModeExp(phc, gmax=1.01, truncate_g=tr)

    def run(g, kw):
        a = cp(kw)
        try:
            g.run(verbose=False, **a)
        finally:
            R.check(same(a, kw), "arguments modified", "%s" % kw)

    def apply(g, op, hist):
        R.step()
        if op in runs:
            run(g, GRUNS[op])
        elif op in bad:
            before = None
            if len(g.freqs):
                before = gsnap(g)
            try:
                run(g, bad[op])
            except (ValueError, TypeError):
                # 'run' also raises for requests outside of the alphabet
                if len(g.freqs) and (before is None or diff(before, gsnap(g))):
                    R.fail("stale results after a rejected run",
                           "%s: %s" % (hist, "no earlier run" if before is None
                                       else diff(before, gsnap(g))))
                R.count("rejected")
            else:
                R.fail("accepted " + op, str(hist))
        elif op == "q_im":
            if len(g.freqs) == 0:
                try:
                    g.run_im()
                    R.fail("run_im without run accepted", str(hist))
                except RuntimeError:
                    pass
            else:
                g.run_im()
        elif op == "q_rad" and len(g.freqs):
            g.compute_rad(0, [0])
            g.compute_rad_sp(0, [0])
        elif op == "q_field" and len(g.freqs):
            g.get_field_xy("D", 0, 0, .1, component="xz", Nx=2, Ny=2)
            g.get_field_xz("E", 0, 0, .1, component="y", Nx=2, Nz=3)
        elif op == "q_eps":
            g.get_eps_xy(.2, Nx=2, Ny=3)
            phc.get_eps(np.meshgrid(np.zeros(2), np.zeros(2), np.zeros(1)))
            repr(g)
        elif op in ("q_badfield", "q_badkind"):
            try:
                if op == "q_badfield":
                    g.get_field_xy("Q", 0, 0, .1, component="x", Nx=2, Ny=2)
                else:
                    g.get_field_xy("E", 99, 0, .1, component="x", Nx=2, Ny=2)
                R.fail("accepted " + op, str(hist))
            except Exception:
                pass
        elif op == "b_autograd":
            legume.set_backend("autograd")
        elif op == "b_numpy":
            legume.set_backend("numpy")
        elif op == "twin":
            t = legume.GuidedModeExp(phc, gmax=1.5, truncate_g="abs")
            t.run(kpoints=K2.copy(), gmode_inds=[1], numeig=2, verbose=False,
                  compute_im=False)
            p = legume.PlaneWaveExp(phc.layers[0], gmax=1.5, eps_eff=3.)
            p.run(kpoints=K2.copy(), pol="tm", numeig=2)
        elif op == "opts":
            g.set_run_options(numeig=1, gmode_inds=[3], kz_symmetry="odd",
                              compute_im=True, verbose=False)

    legume.set_backend("numpy")
    ref, refq = {}, {}
    # the backend is part of the request (results differ by rounding)
    for r, bk in itertools.product(runs, ("numpy", "autograd")):
        legume.set_backend("numpy")
        g = new()
        legume.set_backend(bk)
        for p in ("freqs", "freqs_im", "eigvecs", "kpoints", "unbalance_sp",
                  "rad_coup", "rad_gvec", "kz_symms"):
            try:
                R.check(len(getattr(g, p)) == 0, "results before run", p)
            except AttributeError as x:
                R.fail("property before run", "%s: %s" % (p, x))
        run(g, GRUNS[r])
        ref[r, bk] = gsnap(g)
        refq[r, bk] = gqueries(g)
        R.step(3)
        R.check(not diff(ref[r, bk], gsnap(g)) and
                not diff(refq[r, bk], gqueries(g)),
                "queries change the results", r)
        R.check(near(ref[r, bk], ref[r, "numpy"]), "backends differ", r)
    tails = [()]
    for d in range(1, case["depth"] + 1):
        tails += list(itertools.product(GOPS, repeat=d))
    for tail in tails:
        hist = case["prefix"] + list(tail)
        # the object is rebuilt for every final run so that nothing is shared
        for r in runs:
            legume.set_backend("numpy")
            g = new()
            for i, op in enumerate(hist):
                apply(g, op, hist[:i + 1])
            apply(g, r, hist + [r])
            R.state((case["lat"], tr, tuple(hist), r))
            R.trace()
            bk = backend_after(hist)
            d = diff(ref[r, bk], gsnap(g))
            R.check(not d, "history: " + ",".join(d),
                    "%s after %s" % (r, hist))
            d = diff(refq[r, bk], gqueries(g))
            R.check(not d, "history, query: " + ",".join(d),
                    "%s after %s" % (r, hist))
            R.outcome((r, tuple(np.round(np.ravel(g.freqs)[:2], 7))))
    R.check(repr(phc) == rep, "the crystal was modified", "")


PRUNS = {
    "te": dict(kpoints=K1, pol="te", numeig=3),
    "tm": dict(kpoints=K2, pol="tm", numeig=2),
    "TE": dict(kpoints=K2, pol="TE", numeig=4),
    "def": dict(),
    "big": dict(kpoints=K1, pol="tm", numeig=10**3),
}
PBAD = {
    "bad": dict(kpoints=K2, pol="both", numeig=2),
    "none": dict(kpoints=K2, pol=None, numeig=2),
}
POPS = list(PRUNS) + list(PBAD) + ["field", "eps", "badkind", "b_autograd",
                                  "b_numpy"]


def psnap(p):
    out = dict(freqs=p.freqs, kpoints=p.kpoints,
               eigvecs=[np.abs(np.array(v)) for v in p.eigvecs])
    return copy.deepcopy(out)


def pqueries(p):
    kk, m = len(p.freqs) - 1, min(2, len(p.freqs[0])) - 1
    out = {}
    for f in "HDE":
        e = p.get_field_xy(f, kk, m, component="xyz", Nx=3, Ny=2)[0]
        out[f] = {c: np.abs(np.array(e[c])) for c in e}
    out["eps"] = p.get_eps_xy(Nx=3, Ny=4)[0]
    return out


def pwe_case(case, R, legume):
    lat = structs.lattice(legume, case["lat"])
    layer = legume.ShapesLayer(lat, eps_b=7.)
    layer.add_shape(structs.make_shape(legume, "tri", 1.))
    layer.add_shape(structs.make_shape(legume, "lsh", 3.))
    rep = repr(layer)

    def new():
        return legume.PlaneWaveExp(layer, gmax=1.3)

    def run(p, kw):
        a = cp(kw)
        try:
            p.run(**a)
        finally:
            R.check(same(a, kw), "arguments modified", "%s" % kw)

    def apply(p, op, hist):
        R.step()
        if op in PRUNS:
            run(p, PRUNS[op])
        elif op in PBAD:
            before = psnap(p) if len(p.freqs) else None
            pq = pqueries(p) if len(p.freqs) else None
            try:
                run(p, PBAD[op])
                R.fail("accepted " + op, str(hist))
            except (ValueError, AttributeError, TypeError):
                R.count("rejected")
                if len(p.freqs):
                    ok = before is not None and not diff(before, psnap(p))
                    try:
                        ok = ok and not diff(pq, pqueries(p))
                    except Exception:
                        ok = False
                    R.check(ok, "stale results after a rejected run",
                            str(hist))
        elif op == "field" and len(p.freqs):
            p.get_field_xy("E", 0, 0, component="xz", Nx=2, Ny=2)
        elif op == "eps" and len(p.freqs):
            p.get_eps_xy(Nx=2, Ny=2)
        elif op == "badkind":
            try:
                p.get_field_xy("E", 99, 0, component="x", Nx=2, Ny=2)
                R.fail("accepted badkind", str(hist))
            except Exception:
                pass
        elif op == "b_autograd":
            legume.set_backend("autograd")
        elif op == "b_numpy":
            legume.set_backend("numpy")

    ref, refq = {}, {}
    for r, bk in itertools.product(PRUNS, ("numpy", "autograd")):
        legume.set_backend("numpy")
        p = new()
        legume.set_backend(bk)
        run(p, PRUNS[r])
        ref[r, bk], refq[r, bk] = psnap(p), pqueries(p)
        R.check(not diff(ref[r, bk], psnap(p)) and
                not diff(refq[r, bk], pqueries(p)),
                "queries change the results", r)
        R.check(near(ref[r, bk], ref[r, "numpy"]), "backends differ", r)
    tails = [()]
    if case["first"]:
        for d in range(1, case["depth"]):
            tails += list(itertools.product(POPS, repeat=d))
    for tail in tails:
        hist = ([case["first"]] if case["first"] else []) + list(tail)
        for r in PRUNS:
            legume.set_backend("numpy")
            p = new()
            for i, op in enumerate(hist):
                apply(p, op, hist[:i + 1])
            apply(p, r, hist + [r])
            R.state(("pwe", case["lat"], tuple(hist), r))
            R.trace()
            bk = backend_after(hist)
            d = diff(ref[r, bk], psnap(p))
            R.check(not d, "history: " + ",".join(d), "%s after %s" % (r, hist))
            d = diff(refq[r, bk], pqueries(p))
            R.check(not d, "history, query: " + ",".join(d),
                    "%s after %s" % (r, hist))
            R.outcome((r, tuple(np.round(np.ravel(p.freqs)[:2], 7))))
    R.check(repr(layer) == rep, "the layer was modified", "")


# ---------------------------------------------------------------- polaritons
HRUNS = {
    "h0": dict(kpoints=K1, gme_options=dict(gmode_inds=[0, 1], numeig=3,
                                            verbose=False),
               exc_options=dict(numeig_ex=2, verbose_ex=False)),
    "h1": dict(kpoints=K2, gme_options=dict(gmode_inds=[0], numeig=2,
                                            verbose=False,
                                            gmode_compute="exact"),
               exc_options=dict(numeig_ex=3, verbose_ex=False)),
    "h2": dict(kpoints=K3, gme_options=dict(gmode_inds=[0, 1], numeig=2,
                                            verbose=False, kz_symmetry="odd",
                                            angles=np.array([0.])),
               exc_options=dict(numeig_ex=1, verbose_ex=False)),
}
HBAD = {
    "y0": dict(kpoints=K2, gme_options=dict(gmode_inds=[0], numeig=10**4,
                                            verbose=False), exc_options=dict(
                                                verbose_ex=False)),
    "y1": dict(kpoints=K2, gme_options=dict(gmode_inds=[0], numeig=2,
                                            verbose=False, eps_eff="x"),
               exc_options=dict(verbose_ex=False)),
}
HOPS = list(HRUNS) + list(HBAD) + ["im", "field", "wave", "exc"]


def hsnap(p):
    return copy.deepcopy(dict(
        eners=p.eners, eners_im=p.eners_im, fx=p.fractions_ex,
        fp=p.fractions_ph, kpoints=p.kpoints, gme=gsnap(p.gme),
        exc=[e.eners for e in p.exc_list],
        wave=[np.abs(np.array(e.eigvecs)) for e in p.exc_list]))


def pol_case(case, R, legume):
    lat = structs.lattice(legume, "rect")
    phc = structs.build_phc(legume, lat, S["hole"])
    w = dict(a=2.5e-7, M=.2 * sc.m_e, loss=1e-4, osc_str=[3e17, 2e17, 1e17])
    phc.add_qw(z=.1, V_shapes=.1, E0=1.4, **w)
    phc.add_qw(z=.17, V_shapes=-.1, E0=1.45, **w)
    rep = repr(phc)

    def new():
        return legume.HopfieldPol(phc, 1.01)

    def run(p, kw):
        a = cp(kw)
        try:
            p.run(verbose=False, **a)
        finally:
            R.check(same(a, kw), "arguments modified", "%s" % kw)

    def apply(p, op, hist):
        R.step()
        if op in HRUNS:
            run(p, HRUNS[op])
        elif op in HBAD:
            before = None
            if len(p.eners):
                before = [np.array(x) for x in (p.eners, p.eners_im,
                                                p.fractions_ex, p.kpoints)]
            try:
                run(p, HBAD[op])
                R.fail("accepted " + op, str(hist))
            except ValueError:
                if len(p.eners):
                    now = [np.array(x) for x in (p.eners, p.eners_im,
                                                 p.fractions_ex, p.kpoints)]
                    R.check(before is not None and same(before, now),
                            "stale results after a rejected run", str(hist))
        elif op == "im" and len(p.gme.freqs):
            p.gme.run_im()
        elif op == "field" and len(p.gme.freqs):
            p.gme.get_field_xy("E", 0, 0, .1, component="x", Nx=2, Ny=2)
        elif op == "wave" and len(p.exc_list[0].eners):
            p.exc_list[0].get_wavef_xy(0, 0, 3, 3)
            p.exc_list[0].get_pot_xy(3, 3)
        elif op == "exc":
            p.exc_list[0].run(kpoints=K2.copy(), numeig_ex=1, verbose_ex=False)

    ref = {}
    for r in HRUNS:
        p = new()
        run(p, HRUNS[r])
        ref[r] = hsnap(p)
    tails = [()]
    if case["first"]:
        for d in range(1, case["depth"] + 1):
            tails += list(itertools.product(HOPS, repeat=d))
    for tail in tails:
        hist = ([case["first"]] if case["first"] else []) + list(tail)
        for r in HRUNS:
            p = new()
            for i, op in enumerate(hist):
                apply(p, op, hist[:i + 1])
            apply(p, r, hist + [r])
            R.state(("pol", tuple(hist), r))
            R.trace()
            d = diff(ref[r], hsnap(p))
            R.check(not d, "history: " + ",".join(d), "%s after %s" % (r, hist))
            R.outcome((r, float(np.round(p.eners[0][0], 6))))
    R.check(repr(phc) == rep, "the crystal was modified", "")


def args_case(R, legume):
    """No public call modifies the arrays and lists it is given."""
    def call(name, f, *args, **kw):
        a, k = copy.deepcopy(args), copy.deepcopy(kw)
        R.state(name)
        R.step()
        R.trace()
        res = f(*args, **kw)
        R.check(same(list(a), list(args)) and same(k, kw), "arguments modified",
                name)
        R.outcome(name)
        return res

    lat = call("Lattice", legume.Lattice, [1., .1], [-.2, 1.3])
    call("Lattice2", legume.Lattice, np.array([1., .1]), np.array([.2, 1.3]))
    for n in (4, [4], [4, 2]):
        call("bz_path", legume.Lattice("square").bz_path,
             ["G", [.3, .1], np.array([0., .2])], n)
    call("xy_grid", lat.xy_grid, periods=[2, 1])
    x, y = np.array([0., .3, .2]), np.array([0., .1, .4])
    p = call("Poly", legume.Poly, 2., x, y)
    p.rotate(.3)
    R.check(same(x, np.array([0., .3, .2])), "arguments modified", "Poly.rotate")
    call("FourierShape", legume.FourierShape, 2., 0., 0., [.2, .01], [.0, .02])
    g = np.array([[0., 1., 0., -2.], [0., 0., 2., 1.]])
    for sh in (p, legume.Circle(r=.2), legume.Ellipse(rx=.2, ry=.1, phi=.3),
               legume.Square(a=.2), legume.Hexagon(a=.2)):
        call("compute_ft", sh.compute_ft, g)
        call("is_inside", sh.is_inside, x, y)
    phc = legume.PhotCryst(lat)
    phc.add_layer(d=.2, eps_b=9.)
    shapes = [legume.Circle(r=.1), legume.Circle(r=.1, x_cent=.4)]
    n = len(shapes)
    phc.add_shape(shapes)
    phc.add_shape(legume.Circle(r=.1, y_cent=.4))
    R.check(len(shapes) == n, "arguments modified", "add_shape list")
    osc = np.array([1., 2., 3.])
    for o in (osc, [1., 2., 3.]):
        call("add_qw", phc.add_qw, .1, 1., 1e-7, 1e-31, 1., 0., o)
    call("get_eps", phc.get_eps, np.meshgrid(x, y, np.array([.1, .3])))
    from legume import utils
    from legume.gme.slab_modes import guided_modes, rad_modes
    call("ftinv", utils.ftinv, np.array([1., .2j]), g[:, :2], x, y)
    call("toeplitz_block", utils.toeplitz_block, 2, np.arange(4.),
         np.arange(4.) + 1)
    call("find_nearest", utils.find_nearest, np.array([3., 1., 2.]), 1.4, 2)
    call("guided_modes", guided_modes, np.array([3., 1., 2.]),
         np.array([1., 9., 1.]), np.array([.3]), n_modes=2)
    call("rad_modes", rad_modes, 9., np.array([.1, .2]),
         np.array([1., 9., 1.]), np.array([.3]))
    # options given as lists, tuples and arrays in any order
    KS = np.array([[.3, 1.1], [.2, -.4]])
    for tp, ri in itertools.product((list, tuple, np.array), (0, 1)):
        for inds in itertools.permutations((0, 1, 3)):
            g = legume.GuidedModeExp(phc, gmax=1.3)
            call("gme.run %s" % tp, g.run, kpoints=KS, gmode_inds=tp(
                list(inds)), numeig=3, verbose=False, compute_im=bool(ri))
            call("compute_rad %s" % tp, g.compute_rad, 0,
                 tp([2, 0, 1]) if tp is not tuple else [2, 0, 1])
    ang = np.array([0., 90.])
    sq = legume.PhotCryst(legume.Lattice("square"))
    sq.add_layer(d=.3, eps_b=9.)
    sq.add_shape(legume.Circle(r=.2))
    g = legume.GuidedModeExp(sq, gmax=1.1)
    for sy in ("odd", "even", "both"):
        call("angles", g.run, kpoints=np.array([[.4, 0.], [0., .7]]),
             angles=ang, kz_symmetry=sy, numeig=2, gmode_inds=np.array([1, 0]),
             verbose=False)
    xs, ys, zs = np.array([.3, 0., .1]), np.array([.2, -.1]), np.array([.5, .1])
    for f in "HED":
        call("field_xy", g.get_field_xy, f, 0, 1, .1, xs, ys)
        call("field_xz", g.get_field_xz, f, 0, 1, .1, xs, zs)
        call("field_yz", g.get_field_yz, f, 0, 1, .1, ys, zs)
    call("eps_xy", g.get_eps_xy, .1, xs, ys)
    pw = legume.PlaneWaveExp(sq.layers[0], gmax=1.1)
    for pol in ("te", "tm"):
        call("pwe.run", pw.run, kpoints=KS, pol=pol, numeig=3)
        call("pwe.field", pw.get_field_xy, "H" if pol == "te" else "E", 0, 1)
    for V in (.1, -.1):
        e = legume.ExcitonSchroedEq(sq, .1, V, 1e-7, 1e-31, 1., 0.,
                                    osc_str=osc, gmax=1.1)
        call("exc.run", e.run, kpoints=KS, numeig_ex=2, verbose_ex=False)
        call("exc.wavef", e.get_wavef_xy, 0, 1, 3, 4)
    R.check(same(osc, np.array([1., 2., 3.])), "arguments modified", "osc_str")
