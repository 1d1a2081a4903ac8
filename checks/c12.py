"""C12: 2D plane-wave expansion against its definition."""
import itertools
import numpy as np
from vk import structs

PROPERTY = "C12"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "field functions return the cell-periodic part of the Bloch mode",
    "fields derived by division by omega are compared for modes with non-zero "
    "frequency",
]
BOUNDS = {
    "quick": "7 lattices x 11 layers x TE/TM x 6 k-points x cutoffs 1.2, 2.1 x "
             "eps_eff None/2 values; all modes; every component subset",
    "thorough": "adds cutoff 3.1 and 40 k-points on a grid",
}
LAYERS = {
    "uniform": (1., []),
    "uniform4": (4., []),
    "hole": (12., [("circle0", 1.)]),
    "rod": (1., [("circle", 9.)]),
    "tri": (1., [("tri", 12.)]),
    "tri2": (8., [("tri", 1.), ("lsh", 3.)]),
    "lsh": (2., [("lsh", 10.)]),
    "ell": (5., [("ellipse", 1.)]),
    "ell0": (1., [("ellipse0", 6.)]),
    "strip": (1., [("strip", 11.)]),
    "odd": (6., [("cp", 9.), ("cm", 3.)]),
}
KP = [(0., 0.), (.7, .4), (np.pi, 0.), (-2.2, 1.9), (5.1, -7.3), (0., -1e-3)]
COMPS = ["x", "y", "z", "xy", "zx", "yz", "xyz", "zz"]


def cases(tier):
    out = []
    th = tier == "thorough"
    for lat in structs.LATTICES:
        for ln in LAYERS:
            for gmax in ((1.2, 2.1, 3.1) if th else (1.2, 2.1)):
                for ee in (None, 3.3, 1.):
                    out.append(dict(lat=lat, layer=ln, gmax=gmax, eps_eff=ee,
                                    grid=th))
    return out


def run_case(case, R):
    import legume
    lat = structs.lattice(legume, case["lat"])
    eb, shapes = LAYERS[case["layer"]]
    layer = legume.ShapesLayer(lat, eps_b=eb)
    for n, e in shapes:
        layer.add_shape(structs.make_shape(legume, n, e))
    kw = {} if case["eps_eff"] is None else dict(eps_eff=case["eps_eff"])
    pwe = legume.PlaneWaveExp(layer, gmax=case["gmax"], **kw)
    ref_l = (case["eps_eff"] or eb, shapes)
    area = abs(lat.a1[0] * lat.a2[1] - lat.a1[1] * lat.a2[0])
    gv = np.array(pwe.gvec)
    n = gv.shape[1]
    for prop in (pwe.freqs, pwe.eigvecs, pwe.kpoints):
        R.check(len(prop) == 0, "results before run", "")
    dg = (gv[:, :, None] - gv[:, None, :]).reshape(2, -1)
    epsm = structs.eps_ft(ref_l, area, dg).reshape(n, n)
    eta = np.linalg.inv(epsm)
    kps = list(KP)
    if case["grid"]:
        kps += [(a, b) for a in np.linspace(-4, 4, 8)
                for b in np.linspace(-3, 3, 5)]
    kp = np.array(kps).T
    for pol in ("te", "tm", "TE", "TM"):
        for ne in ((n, 3) if pol.islower() else (min(2, n), )):
            ne = min(n, ne)
            pwe.run(kpoints=kp.copy(), pol=pol, numeig=ne)
            R.step()
            if not R.check(np.shape(pwe.freqs) == (len(kps), ne), "shape",
                           str(np.shape(pwe.freqs))):
                continue
            R.check(np.array_equal(pwe.kpoints, kp), "kpoints", "")
            for ik, k in enumerate(kps):
                one_k(R, pwe, case, pol.lower(), ik, np.array(k), gv, eta, ne,
                      full=(ne == n))
    maps(R, pwe, layer, gv)
    if case["eps_eff"] is None:
        eps_map(R, pwe, layer, ref_l, area)
    for bad in ("tt", "", "tem"):
        try:
            pwe.run(kpoints=kp, pol=bad)
            R.fail("unknown polarisation accepted", bad)
        except ValueError:
            pass


def one_k(R, pwe, case, pol, ik, k, gv, eta, ne, full):
    kg = gv + k[:, None]
    g = np.hypot(*kg)
    if pol == "te":
        M = (kg.T @ kg) * eta
    else:
        M = np.outer(g, g) * eta
    w2 = np.linalg.eigvalsh(M)
    ref = np.sort(np.sqrt(np.abs(w2)))[:ne] / 2 / np.pi
    f = np.array(pwe.freqs[ik])
    R.state((case["lat"], case["layer"], case["gmax"], case["eps_eff"], pol,
             ik, ne))
    R.trace()
    R.outcome(tuple(np.round(ref[:3], 5)))
    R.check(np.max(np.abs(f**2 - ref**2)) < 1e-9 * max(1, ref[-1]**2),
            "frequencies", "%s k=%s: %s expected %s" % (pol, k, f, ref))
    if len(LAYERS[case["layer"]][1]) == 0:
        eb = case["eps_eff"] or LAYERS[case["layer"]][0]
        fold = np.sort(g)[:ne] / np.sqrt(eb) / 2 / np.pi
        R.check(np.max(np.abs(f - fold)) < 1e-7, "uniform medium",
                "%s expected %s" % (f, fold))
    if not full:
        return
    # eigenvectors, and the fields derived from them
    V = np.array(pwe.eigvecs[ik])
    om = 2 * np.pi * f
    sc = max(1, om[-1]**2)
    R.check(np.max(np.abs(V.conj().T @ V - np.eye(ne))) < 1e-9,
            "eigenvectors not orthonormal", "")
    gx = kg[0] + 1e-10
    gn = np.hypot(gx, kg[1])
    px, py = gx / gn, kg[1] / gn
    q = np.array([py, -px, 0 * px])
    z = np.array([0 * px, 0 * px, 1 + 0 * px])
    sg = None
    for m in range(ne):
        H = np.array(pwe.ft_field_xy("H", ik, m))
        R.step()
        # H along z (TE) or transverse in-plane (TM); zero elsewhere
        d = z if pol == "te" else q
        c = np.sum(H * d, axis=0)
        R.check(np.max(np.abs(H - c * d)) < 1e-12, "H polarisation", "")
        res = np.linalg.norm(M @ c - om[m]**2 * c)
        R.check(res < 1e-8 * sc and abs(np.linalg.norm(c) - 1) < 1e-9,
                "H is not the normalised eigenvector", "mode %d res %.1e" %
                (m, res))
        if om[m] < 1e-2:
            continue
        D = np.array(pwe.ft_field_xy("D", ik, m))
        E = np.array(pwe.ft_field_xy("e", ik, m))
        R.step(2)
        # curl H = i (k+G) x H
        K = np.array([kg[0], kg[1], 0 * kg[0]])
        cu = 1j / om[m] * np.cross(1j * K.T, H.T).T
        for s in ((1, -1) if sg is None else (sg, )):
            if np.max(np.abs(D - s * cu)) < 1e-6 * np.max(np.abs(cu)):
                sg = s
                break
        else:
            R.fail("D is not curl H", "%s mode %d: %s vs %s" %
                   (pol, m, D[:, :3], cu[:, :3]))
            return
        re = np.array([eta @ x for x in D])
        R.check(np.max(np.abs(E - re)) < 1e-8 * np.max(np.abs(re)),
                "E is not D/eps", "mode %d" % m)
        R.trace()
    R.check(sg in (None, -1), "sign of D (convention of the GME)", str(sg))


def eps_map(R, pwe, layer, ref_l, area):
    """Expansion over all differences of basis vectors, n1 and n2 in range."""
    lat = layer.lattice
    gv = np.array(pwe.gvec)
    dg = (gv[:, :, None] - gv[:, None, :]).reshape(2, -1)
    n = np.unique(np.round(np.array([np.array(lat.a1) @ dg, np.array(lat.a2) @ dg])
                           / 2 / np.pi).astype(int), axis=1)
    G = np.outer(lat.b1, n[0]) + np.outer(lat.b2, n[1])
    co = structs.eps_ft(ref_l, area, G)
    for nx, ny in ((5, 4), (1, 1), (2, 7)):
        xg, yg = lat.xy_grid(Nx=nx, Ny=ny)
        e, x, y = pwe.get_eps_xy(Nx=nx, Ny=ny)
        R.step()
        X, Y = np.meshgrid(xg, yg)
        want = np.tensordot(co, np.exp(1j * (np.multiply.outer(G[0], X) +
                                             np.multiply.outer(G[1], Y))), 1)
        R.trace()
        R.check(np.shape(e) == (ny, nx) and np.array_equal(x, xg) and
                np.array_equal(y, yg) and
                np.max(np.abs(e - want)) < 1e-3 * np.sqrt(len(co)),
                "permittivity map", "%s expected %s" % (e, want))


def maps(R, pwe, layer, gv):
    xg, yg = layer.lattice.xy_grid(Nx=4, Ny=3)
    X, Y = np.meshgrid(xg, yg)
    ph = np.exp(1j * (gv[0][:, None, None] * X + gv[1][:, None, None] * Y))
    for field in "HDE":
        for kind, mind in ((1, 0), (3, 1)):
            ft = pwe.ft_field_xy(field, kind, mind)
            ref = dict(zip("xyz", (np.tensordot(f, ph, 1) for f in ft)))
            for comp in COMPS:
                fi, x, y = pwe.get_field_xy(field, kind, mind, component=comp,
                                            Nx=4, Ny=3)
                R.step()
                ok = set(fi) == set(comp) and np.array_equal(x, xg) and \
                    np.array_equal(y, yg) and all(
                        fi[c].shape == (3, 4) and
                        np.max(np.abs(fi[c] - ref[c])) < 1e-9 for c in fi)
                R.check(ok, "xy map", "%s %s" % (field, comp))
            try:
                pwe.get_field_xy(field, kind, mind, component="xq")
                R.fail("unknown component accepted", "")
            except ValueError:
                pass
