"""C15: exciton states against an independent plane-wave Schroedinger model."""
import itertools
import numpy as np
import scipy.constants as sc
from vk import structs

PROPERTY = "C15"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "a negative potential is measured from its bottom (documented in the code: "
    "'if the potential is negative we must shift all energies'): the shapes are "
    "at 0 and the background at |V|",
    "wavefunctions are compared as subspaces where levels are degenerate",
]
BOUNDS = {
    "quick": "7 lattices x 9 shape lists x 3 well heights x 2 truncations x 2 "
             "cutoffs x 5 potentials x 3 masses/cells x 6 k-points, all states; "
             "rejections; every history of <= 2 runs",
    "thorough": "adds cutoffs 2.6 and 3.2, 20 k-points, histories of 3 runs",
}
SHAPESETS = {
    "none": [],
    "circle0": ["circle0"],
    "circle": ["circle"],
    "tri": ["tri"],
    "ell": ["ellipse"],
    "two": ["tri", "lsh"],
    "two_r": ["lsh", "tri"],
    "three": ["tri", "lsh", "disc"],
    "strip": ["strip"],
}
structs.SHAPES.setdefault("disc", ("circle", dict(x_cent=.3, y_cent=-.25,
                                                  r=.12)))
POTS = [0.004, 1., -0.003, 0., -1.5]
MASS = [(0.2 * sc.m_e, 5e-8, 1.5), (0.05 * sc.m_e, 2e-7, 0.), (
    0.6 * sc.m_e, 4.2e-7, 2.3)]
KP = np.array([(0., 0.), (.7, .4), (np.pi, 0.), (-2.2, 1.9), (5.1, -7.3),
               (0., -1e-3)]).T
TRUNC = ("abs", "tbt")


def cases(tier):
    out = []
    gm = (1.2, 2.1) if tier == "quick" else (1.2, 2.1, 2.6, 3.2)
    for lat in structs.LATTICES:
        for ss in SHAPESETS:
            # on the square lattice 1 and 2 lie exactly on a shell
            for g in gm + ((1., 2.) if lat == "square" else ()):
                out.append(dict(lat=lat, shapes=ss, gmax=g, tier=tier))
    out.append(dict(kind="reject"))
    for lat in ("square", "oblique"):
        out.append(dict(kind="history", lat=lat, depth=2 if tier == "quick"
                        else 3))
    return out


def build(legume, lat, ss, where=0):
    """three layers; the shapes `ss` are in layer `where`, others elsewhere."""
    phc = legume.PhotCryst(lat, eps_l=1.4, eps_u=1.)
    other = [[("circle0", 3.)], [], [("square0", 1.)]]
    for i in range(3):
        phc.add_layer(d=[.2, .15, .3][i], eps_b=[9., 12., 5.][i])
        if i == where:
            for j, s in enumerate(ss):
                # the permittivity of the shapes is irrelevant to the exciton
                phc.add_shape(structs.make_shape(legume, s, 1. + j))
        else:
            for s, e in other[i]:
                phc.add_shape(structs.make_shape(legume, s, e))
    return phc


def gset(lat, gmax, trunc):
    b1, b2 = np.array(lat.b1), np.array(lat.b2)
    if trunc == "tbt":
        n1 = int(2 * np.pi * gmax / np.linalg.norm(b1))
        n2 = int(2 * np.pi * gmax / np.linalg.norm(b2))
        return [(i, j) for i in range(-n1, n1 + 1) for j in range(-n2, n2 + 1)]
    N = int(gmax * max(np.linalg.norm(lat.a1), np.linalg.norm(lat.a2))) + 2
    return [(i, j) for i in range(-N, N + 1) for j in range(-N, N + 1)
            if np.linalg.norm(i * b1 + j * b2) <= 2 * np.pi * gmax + 1e-9]


def vft(ss, area, V, g):
    out = np.zeros(g.shape[1], dtype=complex)
    for s in ss:
        out += V * structs.shape_ft_cached(s, g) / area
    if V < 0 and ss:
        out[np.hypot(g[0], g[1]) < 1e-9] += abs(V)
    return out


def ham(gv, Vm, k, M, a):
    q = np.hypot(k[0] + gv[0], k[1] + gv[1]) / a
    return np.diag(sc.hbar**2 * q**2 / (2 * M * sc.e)) + Vm


def run_case(case, R):
    import legume
    if case.get("kind") == "reject":
        return reject(R)
    if case.get("kind") == "history":
        return history(case, R)
    lat = structs.lattice(legume, case["lat"])
    area = abs(lat.a1[0] * lat.a2[1] - lat.a1[1] * lat.a2[0])
    ss = SHAPESETS[case["shapes"]]
    kps = KP
    if case["tier"] == "thorough":
        u = np.array(list(itertools.product((-.4, -.1, .2, .5), (-.3, 0., .1,
                                                                .5)))).T
        kps = np.hstack((KP, np.array(lat.b1)[:, None] * u[0] +
                         np.array(lat.b2)[:, None] * u[1]))
    Bi = np.linalg.inv(np.array([lat.b1, lat.b2]).T)
    for trunc in TRUNC:
        want = sorted(gset(lat, case["gmax"], trunc))
        mats = {}
        for (where, z), V, (M, a, E0) in itertools.product(
                ((0, .07), (1, .2 + .149), (2, .6)), POTS, MASS):
            if where and (V != POTS[0] or M != MASS[0][0]) and \
                    case["shapes"] not in ("two", "tri"):
                continue
            R.state((case["lat"], case["shapes"], case["gmax"], trunc, where, V,
                     M))
            phc = build(legume, lat, ss, where)
            e = legume.ExcitonSchroedEq(phc, z=z, V_shapes=V, a=a, M=M, E0=E0,
                                        loss=1e-5, osc_str=[1, 2, 3],
                                        gmax=case["gmax"], truncate_g=trunc)
            R.step(2)
            for p in ("eners", "eigvecs", "kpoints"):
                try:
                    R.check(len(getattr(e, p)) == 0, "results before run", p)
                except AttributeError as x:
                    R.fail("property before run", "%s: %s" % (p, x))
            R.check("E0" in repr(e), "repr", "")
            gv = np.array(e.gvec)
            n = np.rint(Bi @ gv).astype(int)
            if not R.check(sorted(map(tuple, n.T)) == want and np.allclose(
                    np.array([lat.b1, lat.b2]).T @ n, gv), "basis",
                    "%s %s %d %d" % (case, trunc, n.shape[1], len(want))):
                continue
            key = V
            if key not in mats:
                d = gv[:, :, None] - gv[:, None, :]
                mats[key] = vft(ss, area, V, d.reshape(2, -1)).reshape(
                    d.shape[1:])
            Vm = mats[key]
            info = "%s %s where=%d V=%g M=%g a=%g" % (case, trunc, where, V,
                                                      M / sc.m_e, a)
            neig = n.shape[1]
            e.run(kpoints=kps.copy(), numeig_ex=neig, verbose_ex=False)
            R.step()
            En = np.array(e.eners)
            ok = En.shape == (kps.shape[1], neig)
            if not R.check(ok, "shape of eners", "%s %s" % (info, En.shape)):
                continue
            scale = 1e-9 * max(1e-3, abs(V))
            for ik, k in enumerate(kps.T):
                H = ham(gv, Vm, k, M, a)
                w = np.linalg.eigvalsh(H)
                tol = 1e-12 * np.max(np.abs(w)) + scale
                R.trace()
                got = np.real(En[ik]) - E0
                R.check(np.max(np.abs(got - w)) < tol, "energies",
                        "%s k=%s: %s want %s" % (info, k, got[:4], w[:4]))
                R.check(np.all(np.abs(np.imag(En[ik]) - 1e-5) < 1e-15),
                        "losses", info)
                U = np.array(e.eigvecs[ik])
                R.check(np.max(np.abs(H @ U - U * got)) < 10 * tol + 1e-9 *
                        abs(V), "eigenvectors", "%s k=%s: %.2e" % (
                            info, k, np.max(np.abs(H @ U - U * got))))
                R.check(np.max(np.abs(U.conj().T @ U - np.eye(neig))) < 1e-9,
                        "normalisation", info)
            R.outcome((round(float(np.real(En[0, 0])), 8), neig))
            if V == 0. or not ss:
                free = np.sort(np.hypot(kps[0, 1] + gv[0], kps[1, 1] + gv[1])**2
                               ) * sc.hbar**2 / (2 * M * sc.e * a**2)
                R.check(np.allclose(np.real(En[1]) - E0, free, rtol=1e-9,
                                    atol=1e-12), "free exciton", info)
            # a smaller request returns the lowest states
            if V == POTS[0] and M == MASS[0][0]:
                for ne in (1, 3, neig, neig + 5):
                    e2 = legume.ExcitonSchroedEq(
                        phc, z=z, V_shapes=V, a=a, M=M, E0=E0, loss=0.,
                        gmax=case["gmax"], truncate_g=trunc)
                    e2.run(kpoints=kps[:, [1]], numeig_ex=ne, verbose_ex=False)
                    R.step()
                    m = min(ne, neig)
                    R.check(np.shape(e2.eners) == (1, m) and np.allclose(
                        np.array(e2.eners)[0].real, En[1].real[:m], atol=1e-12)
                            and e2.osc_str is None, "numeig_ex",
                            "%s %d" % (info, ne))
                    R.check(np.all(np.imag(e2.eners) == 0), "losses", info)
                R.check(np.array_equal(e.osc_str, [1, 2, 3]), "osc_str", info)
                # maps
                for nx, ny in ((5, 4), (1, 3), (6, 1)):
                    try:
                        f, x, y = e.get_wavef_xy(1, min(2, neig - 1), Nx=nx,
                                                 Ny=ny)
                    except Exception as ex:
                        R.fail("wavefunction map", "%s: %r" % (info, ex))
                        continue
                    X, Y = np.meshgrid(x, y)
                    U = np.array(e.eigvecs[1])[:, min(2, neig - 1)]
                    wf = sum(c * np.exp(1j * (g[0] * X + g[1] * Y))
                             for c, g in zip(U, gv.T))
                    R.step()
                    R.check(np.shape(f) == (len(y), len(x)) and
                            np.max(np.abs(f - wf)) < 1e-9, "wavefunction map",
                            info)
                    R.check(np.allclose(e.ft_wavef_xy(1, min(2, neig - 1)), U),
                            "wavefunction components", info)
            if M == MASS[0][0]:
                try:
                    p, x, y = e.get_pot_xy(Nx=5, Ny=4)
                except Exception as ex:
                    R.fail("potential map", "%s: %r" % (info, ex))
                    continue
                R.step()
                diffs = sorted(set(map(tuple, (n[:, :, None] - n[:, None, :]
                                               ).reshape(2, -1).T)))
                D = np.array([lat.b1, lat.b2]).T @ np.array(diffs).T
                c = vft(ss, area, V, D)
                X, Y = np.meshgrid(x, y)
                wp = sum(cc * np.exp(1j * (g[0] * X + g[1] * Y))
                         for cc, g in zip(c, D.T))
                R.check(np.shape(p) == X.shape and np.max(np.abs(p - wp)) < 1e-9
                        * max(1, abs(V)), "potential map",
                        "%s %.2e" % (info, np.max(np.abs(p - wp))))


def reject(R):
    import legume
    lat = legume.Lattice("square")
    phc = build(legume, lat, ["circle"], 0)
    base = dict(phc=phc, z=.1, V_shapes=1., a=1e-7, M=sc.m_e, E0=1., loss=0.,
                gmax=1.1)
    bad = [(dict(z=-.1), ValueError), (dict(z=.7), ValueError),
           (dict(z=.65 + .001), ValueError), (dict(truncate_g="round"),
                                              ValueError),
           (dict(osc_str=3.), TypeError), (dict(osc_str=(1, 2, 3)), TypeError),
           (dict(osc_str=[1, 2]), ValueError),
           (dict(osc_str=np.ones(4)), ValueError)]
    for kw, exc in bad:
        R.state(str(kw))
        R.step()
        R.trace()
        try:
            legume.ExcitonSchroedEq(**{**base, **kw})
            R.fail("accepted invalid argument", str(kw))
        except exc:
            R.outcome(exc.__name__)
    # boundaries: a well exactly on an interface belongs to the layer below
    Vs = {}
    for z in (.2 - 1e-6, .2, .2 + 1e-6, .65 - 1e-6):
        e = legume.ExcitonSchroedEq(**{**base, "z": z})
        e.run(verbose_ex=False, numeig_ex=3)
        Vs[z] = float(np.array(e.eners)[0, 0].real)
        R.step(2)
        R.trace()
    R.check(abs(Vs[.2] - Vs[.2 - 1e-6]) < 1e-12, "interface", str(Vs))
    R.check(abs(Vs[.2 + 1e-6] - 1.) < 1e-9, "layer above interface", str(Vs))
    R.check(abs(Vs[.2] - 1.) > 1e-6, "layer below interface", str(Vs))


def history(case, R):
    import legume
    lat = structs.lattice(legume, case["lat"])
    phc = build(legume, lat, ["tri", "lsh"], 1)
    RUNS = [dict(kpoints=np.array([[.3], [.2]])),
            dict(kpoints=np.array([[0., 1., 2.], [0., .5, -1.]]), numeig_ex=3),
            dict(numeig_ex=2),
            dict(kpoints=np.array([[1.], [0.]]), numeig_ex=400)]

    def new():
        return legume.ExcitonSchroedEq(phc, z=.3, V_shapes=.004, a=5e-8,
                                       M=.2 * sc.m_e, E0=1., loss=1e-5,
                                       gmax=1.6, truncate_g=tr)

    def go(e, r):
        e.run(verbose_ex=False, **{k: (v.copy() if hasattr(v, "copy") else v)
                                   for k, v in RUNS[r].items()})
        return np.array(e.eners), np.abs(np.array(e.eigvecs)), np.array(
            e.kpoints)

    for tr in TRUNC:
        fresh = [go(new(), r) for r in range(len(RUNS))]
        for n in range(1, case["depth"] + 1):
            for seq in itertools.product(range(len(RUNS)), repeat=n):
                e = new()
                for r in seq:
                    got = go(e, r)
                    e.get_pot_xy(3, 3)
                    e.get_wavef_xy(0, 0, 3, 3)
                    R.step(3)
                R.state((tr, seq))
                R.trace()
                R.check(all(np.shape(x) == np.shape(y) and np.allclose(
                    x, y, atol=1e-9) for x, y in zip(got, fresh[seq[-1]])),
                    "history", "%s %s" % (tr, seq))
                R.outcome((tr, seq[-1]))
