"""C04: plane-wave basis sets and permittivity expansion."""
import itertools
import numpy as np
from vk import structs as S

PROPERTY = "C04"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "9 lattices x 2 truncations x 9 cutoffs (incl. cutoffs exactly on "
    "a reciprocal shell) x 8 layer contents, every layer and cladding of a "
    "2-layer slab, plus the 2D solver; full coefficient set each; every "
    "cutoff on one of the first reciprocal shells (up to 3.7/a) of 4 lattices "
    "at 33 lattice constants, slab and exciton bases",
    "thorough": "as quick with 16 cutoffs, shells up to 6/a",
}
ASSUMPTIONS = ["shapes of one layer do not overlap",
               "coefficients compared to 3e-4 (polygon regularisation)"]

CONTENT = [
    [], [("circle0", 6.)], [("tri", 1.)], [("circle", 2.), ("lsh", 9.)],
    [("ellipse", 1.)], [("tri", 3.), ("lsh", 1.), ("circle", 7.)],
    [("square0", 4.)], [("strip", 2.)], [("cp", 15.), ("cm", 9.)],
]


LATS = dict(S.LATTICES,
            thin=([1., 0.], [.9, .3]),
            irr=([.5 * np.cos(.3) - S.H3 * np.sin(.3),
                  .5 * np.sin(.3) + S.H3 * np.cos(.3)],
                 [.5 * np.cos(.3) + S.H3 * np.sin(.3),
                  .5 * np.sin(.3) - S.H3 * np.cos(.3)]))


def cases(tier):
    cuts = [.55, .999, 1., 1.01, 1.3, 1.42, 2., 2.01, "shell2"]
    if tier == "thorough":
        cuts += [1.5, 1.75, 2.3, 2.6, 3., 3.01, "shell3"]
    out = [{"lattice": l, "trunc": t, "gmax": g} for l in LATS
           for t in ("abs", "tbt", "pwe") for g in cuts]
    th = tier == "thorough"
    # lattice constants for which shells and cutoffs round differently
    for a in [round(.05 * i, 3) for i in range(2, 30)] + [
            400., 650., 1e-3, 4.2e-7, 3e-7]:
        for l in ("square", "rect", "hex", "hexrot"):
            out.append({"edge": l, "a": a, "upto": 6. if th else 3.7})
    return out


def edge_case(c, R):
    """Every cutoff lying on a reciprocal shell takes all of it or nothing."""
    import contextlib
    import io
    import legume
    a, h = c["a"], np.sqrt(3) / 2
    A = {"square": [[1, 0], [0, 1]], "rect": [[1, 0], [0, 2]],
         "hex": [[.5, h], [.5, -h]], "hexrot": [[h, .5], [-h, .5]]}[c["edge"]]
    lat = legume.Lattice(*[[x * a for x in v] for v in A])
    N = 15
    idx = np.array(list(itertools.product(range(-N, N + 1), repeat=2)))
    g1 = np.hypot(*(idx @ np.linalg.inv(np.array(A, float)).T).T)
    gl = np.hypot(*(idx @ np.array([lat.b1, lat.b2])).T) / (2 * np.pi)
    phc = legume.PhotCryst(lat)
    phc.add_layer(d=.3 * a, eps_b=5.)
    phc.add_shape(legume.Circle(eps=1., r=.2 * a))
    phc.add_qw(z=.1 * a, V_shapes=0., a=1e-7, M=1e-31, E0=1.5, loss=1e-5,
               osc_str=[1, 1, 1])
    for sh in sorted(set(np.round(g1[g1 < c["upto"]], 9))):
        on = np.abs(g1 - sh) < 1e-8
        below = g1 < sh - 1e-8
        cuts = {float(sh / a)} | set(map(float, gl[on]))
        for gmax in sorted(cuts):
            R.state((c["edge"], a, gmax))
            R.step(2)
            with contextlib.redirect_stdout(io.StringIO()):
                sols = [legume.GuidedModeExp(phc, gmax=gmax, truncate_g="abs"),
                        legume.ExcitonSchroedEq(
                            phc, z=.1 * a, V_shapes=0., a=1e-7, M=1e-31,
                            E0=1.5, loss=1e-5, osc_str=[1, 1, 1], gmax=gmax,
                            truncate_g="abs")]
            for sol in sols:
                gv = np.asarray(sol.gvec).T
                got = set(map(tuple, np.rint(gv @ np.array(
                    [lat.a1, lat.a2]).T / (2 * np.pi)).astype(int)))
                want = [set(map(tuple, idx[below])),
                        set(map(tuple, idx[below | on]))]
                R.trace()
                R.outcome((c["edge"], len(got)))
                R.check(len(got) == len(gv) and got in want, "basis:edge",
                        "%s lattice a=%g gmax=%r: %d vectors, %d inside and "
                        "%d on the circle (%s)" %
                        (c["edge"], a, gmax, len(gv), below.sum(), on.sum(),
                         type(sol).__name__))


def run_case(c, R):
    import legume
    if "edge" in c:
        # (a cutoff that is never moved off the shell is reported, not awaited)
        import signal

        def late(*_):
            raise RuntimeError("basis construction does not end")
        signal.signal(signal.SIGALRM, late)
        signal.alarm(90)
        try:
            return edge_case(c, R)
        finally:
            signal.alarm(0)
    lat = legume.Lattice(*LATS[c["lattice"]])
    A = np.array([lat.a1, lat.a2], float)
    B = 2 * np.pi * np.linalg.inv(A).T
    area = abs(np.linalg.det(A))
    N = 14
    allidx = np.array(list(itertools.product(range(-N, N + 1), repeat=2)))
    allg = allidx @ B
    norms = np.hypot(*allg.T)
    gmax = c["gmax"]
    if isinstance(gmax, str):
        sh = sorted(set(np.round(norms / 2 / np.pi, 9)))
        gmax = float(norms[np.argmin(np.abs(
            norms / 2 / np.pi - sh[int(gmax[5:])]))] / 2 / np.pi)
    contents = CONTENT
    first = True
    for ic, content in enumerate(contents):
        other = contents[(ic + 3) % len(contents)]
        stack = dict(l=(2., contents[(ic + 1) % len(contents)] if ic % 2 else
                        []), u=(1., []),
                     layers=[(.4, 12., content), (.2, 5., other)])
        key = (c["lattice"], c["trunc"], round(gmax, 6), ic)
        R.state(key)
        desc = "%s %s gmax=%r content=%s" % (c["lattice"], c["trunc"], gmax,
                                            content)
        if c["trunc"] == "pwe":
            layer = legume.ShapesLayer(lat, eps_b=12.)
            for n, e in content:
                layer.add_shape(S.make_shape(legume, n, e))
            sol = legume.PlaneWaveExp(layer, gmax=gmax)
            R.step()
            sol.run(kpoints=np.array([[.1], [.2]]), numeig=1)
        else:
            phc = S.build_phc(legume, lat, stack)
            R.step()
            sol = legume.GuidedModeExp(phc, gmax=gmax, truncate_g=c["trunc"])
        gvec = np.asarray(sol.gvec)
        idx = np.rint(gvec.T @ A.T / (2 * np.pi)).astype(int)
        ok = gvec.shape[0] == 2 and np.allclose(idx @ B, gvec.T, atol=1e-8)
        if not R.check(ok, "basis:lattice", desc):
            return
        got = set(map(tuple, idx))
        R.check(len(got) == len(idx), "basis:duplicates", desc)
        if c["trunc"] == "abs":
            inside = set(map(tuple, allidx[norms < 2 * np.pi * gmax - 1e-6]))
            on = set(map(tuple, allidx[np.abs(norms - 2 * np.pi * gmax)
                                       <= 1e-6]))
            good = inside <= got <= inside | on and \
                (on <= got or not (on & got))
            R.check(good, "basis:circle", "%s: %d vectors, missing %s extra %s"
                    % (desc, len(got), sorted(inside - got)[:5],
                       sorted(got - inside - on)[:5]) + " on-shell %d/%d" %
                    (len(on & got), len(on)))
            diffs = got
        else:
            n1 = int(2 * np.pi * gmax / np.hypot(*B[0]) + 0.)
            n2 = int(2 * np.pi * gmax / np.hypot(*B[1]) + 0.)
            m1, m2 = np.abs(idx).max(axis=0)
            box = set(itertools.product(range(-m1, m1 + 1),
                                        range(-m2, m2 + 1)))
            edge = lambda m, n, b: m == n or abs(
                2 * np.pi * gmax / np.hypot(*b) - round(
                    2 * np.pi * gmax / np.hypot(*b))) < 1e-9
            R.check(got == box and edge(m1, n1, B[0]) and
                    edge(m2, n2, B[1]), "basis:box", "%s: box %s %s expected "
                    "%s %s" % (desc, m1, m2, n1, n2))
        R.check(all((-a, -b) in got for a, b in got), "basis:inversion", desc)
        R.outcome(len(got))
        # real-space permittivity = truncated Fourier series of the structure
        D = np.array(sorted({(a[0] - b[0], a[1] - b[1]) for a in got
                             for b in got}))
        G = (D @ B).T
        if c["trunc"] == "pwe":
            items = [(0., (12., content))]
        else:
            L = S.stack_layers(stack)
            items = list(zip((-.5, .2, .5, .9), L))
            if not first:
                items = items[:3]
        xg = np.linspace(-.6, .55, 7) * 1.03
        yg = np.linspace(-.5, .62, 6)
        for z, la in items:
            R.step()
            if c["trunc"] == "pwe":
                e, x, y = sol.get_eps_xy(Nx=7, Ny=6)
                ge = lat.xy_grid(Nx=7, Ny=6)
                R.check(np.allclose(x, ge[0]) and np.allclose(y, ge[1]),
                        "eps:grid", desc)
            else:
                e, x, y = sol.get_eps_xy(z=z, xgrid=xg, ygrid=yg)
            X, Y = np.meshgrid(x, y)
            co = S.eps_ft(la, area, G)
            want = (np.exp(1j * (np.multiply.outer(X, G[0]) +
                                 np.multiply.outer(Y, G[1]))) @ co)
            R.trace()
            R.outcome(np.round(np.asarray(e)[0, :3], 4).tobytes())
            err = np.abs(np.asarray(e) - want).max() \
                if np.shape(e) == want.shape else np.inf
            tol = 1e-4 * max(4., len(G)**.5 * 4)
            R.check(err < tol, "eps:series", "%s z=%s: expansion deviates by "
                    "%s from the structure's Fourier series" % (desc, z, err))
        first = False
        if c["trunc"] != "pwe":
            # default grid
            e, x, y = sol.get_eps_xy(z=.2, Nx=4, Ny=3)
            ge = lat.xy_grid(Nx=4, Ny=3)
            R.check(np.allclose(x, ge[0]) and np.allclose(y, ge[1]) and
                    e.shape == (3, 4), "eps:defaultgrid", desc)
