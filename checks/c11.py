"""C11: slab fields returned by the GME."""
import itertools
import numpy as np
from vk import gmeref, structs
from vk.stacks import S

PROPERTY = "C11"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "field functions return the cell-periodic part of the Bloch mode",
    "time convention exp(+i omega t) as used throughout the implementation: "
    "D = -(i/omega) curl H",
]
BOUNDS = {
    "quick": "3 lattices x 10 stacks x abs/tbt x 3 lists of guided modes, 4 "
             "k-points, 5 modes, 3-4 heights per layer and cladding plus all "
             "interfaces; every component subset; xy/xz/yz maps; one "
             "structure in 3 length units",
    "thorough": "7 lattices x 2 cutoffs x 5 lists x average/background, 7 "
                "k-points, 8 modes",
}
KP = [(.7, .4), (0., 0.), (-2.2, 1.9), (np.pi, 0.), (5.1, -7.3), (0., -1.2),
      (.05, 0.)]
LISTS = [[0, 1, 2, 3], [1], [0, 3], [0], [2, 1]]
COMPS = ["x", "y", "z", "xy", "zx", "yz", "xyz", "xx"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for lat in (list(structs.LATTICES) if th
                else ["square", "hexagonal", "oblique"]):
        for st in S:
            for tr in ("abs", "tbt"):
                for gmax in ((1.2, 2.1) if th else (1.2, )):
                    for eff in (("average", "background") if th
                                else ("average", )):
                        for li in range(5 if th else 3):
                            out.append(dict(lat=lat, stack=st, tr=tr,
                                            gmax=gmax, eff=eff, li=li,
                                            nk=7 if th else 4,
                                            ne=8 if th else 5))
    for u in (4e-7, 650., .31):
        for tr in ("abs", "tbt"):
            for li in range(4 if th else 2):
                out.append(dict(units=u, tr=tr, li=li))
    return out


def in_units(a, tr, inds):
    """Everything returned for a structure with lengths in units of 1/a, made
    dimensionless."""
    import legume
    lat = legume.Lattice([a, 0.], [.3 * a, 1.1 * a])
    phc = legume.PhotCryst(lat, eps_l=1., eps_u=2.)
    phc.add_layer(d=.5 * a, eps_b=12.)
    phc.add_shape(legume.Circle(eps=1., x_cent=.1 * a, r=.2 * a))
    phc.add_shape(legume.Poly(eps=3., x_edges=[.25 * a, .45 * a, .4 * a],
                              y_edges=[.3 * a, .32 * a, .5 * a]))
    phc.add_layer(d=.2 * a, eps_b=5.)
    phc.add_shape(legume.Ellipse(eps=1., rx=.2 * a, ry=.1 * a, phi=.3))
    g = legume.GuidedModeExp(phc, gmax=2.01 / a, truncate_g=tr)
    g.run(kpoints=np.array([[.3, 1.9], [.2, -.7]]) / a, gmode_inds=inds,
          numeig=5, verbose=False, gmode_step=1e-2 / a)
    o = {"freqs": g.freqs * a, "freqs_im": g.freqs_im * a,
         "unbalance_sp": np.array(g.unbalance_sp)}
    x, y = np.linspace(-.5, .5, 5) * a, np.linspace(-.4, .5, 4) * a
    z = np.array([-.4, .1, .5, .6, .9]) * a
    for k, m, f in itertools.product((0, 1), (0, 1, 3, 4), "hed"):
        for zz in z:
            r = g.get_field_xy(f, k, m, zz, xgrid=x, ygrid=y)[0]
            for c in "xyz":
                o["field", k, m, f, "xy", zz / a, c] = abs(r[c])**2 * a**3
        r = g.get_field_xz(f, k, m, .1 * a, xgrid=x, zgrid=z)[0]
        for c in "xyz":
            o["field", k, m, f, "xz", c] = abs(r[c])**2 * a**3
        r = g.get_field_yz(f, k, m, .1 * a, ygrid=y, zgrid=z)[0]
        for c in "xyz":
            o["field", k, m, f, "yz", c] = abs(r[c])**2 * a**3
    for zz in z:
        o["eps", zz / a] = g.get_eps_xy(z=zz, xgrid=x, ygrid=y)[0]
    return o


def units(case, R):
    inds = LISTS[case["li"]]
    A, B = in_units(1., case["tr"], inds), in_units(case["units"], case["tr"],
                                                    inds)
    R.check(len(A) == len(B), "units", "results")
    for (k, a), b in zip(A.items(), B.values()):
        R.state((case["units"], case["tr"], case["li"], k))
        R.step()
        R.trace()
        R.outcome((k, np.round(float(np.sum(a)), 5)))
        err = np.max(np.abs(a - b)) if np.shape(a) == np.shape(b) else np.inf
        R.check(err <= 1e-5 * np.max(np.abs(a)) + 1e-10, "units",
                "length unit 1/%g %s %s: %s differs by %.2e" %
                (case["units"], case["tr"], inds, k, err))


def ftsum(ft, gvec, x, y):
    X, Y = np.meshgrid(x, y)
    return sum(f * np.exp(1j * (g[0] * X + g[1] * Y))
               for f, g in zip(ft, gvec.T))


def run_case(case, R):
    import legume
    if "units" in case:
        return units(case, R)
    lat = structs.lattice(legume, case["lat"])
    stack = S[case["stack"]]
    phc = structs.build_phc(legume, lat, stack)
    area = abs(lat.a1[0] * lat.a2[1] - lat.a1[1] * lat.a2[0])
    eff = gmeref.eff_eps(stack, area, case["eff"])
    if max(eff[1:-1]) <= max(eff[0], eff[-1]):
        R.count("no guided modes")
        return
    gme = legume.GuidedModeExp(phc, gmax=case["gmax"], truncate_g=case["tr"])
    inds = LISTS[case["li"]]
    d = [l[0] for l in stack["layers"]]
    gvec = np.array(gme.gvec)
    _, eta = gmeref.eta_matrices(structs.stack_layers(stack), area, gvec)
    kps, bases = [], []
    for k in KP[:case["nk"]]:
        B = gmeref.Basis(gvec, k, eff, d, inds)
        if B.near_cutoff or B.mismatch > 1e-7 or len(B.fn) == 0:
            R.count("skipped k (near cutoff / ill conditioned / no modes)")
            continue
        kps.append(k)
        bases.append(B)
    if not kps:
        return
    ne = min([case["ne"]] + [len(B.fn) for B in bases])
    gme.run(kpoints=np.array(kps).T.copy(), gmode_inds=inds, numeig=ne,
            verbose=False, eps_eff=case["eff"], compute_im=False)
    R.step()
    zb = np.concatenate(([0.], np.cumsum(d)))
    zs = [-.9, -.2, zb[-1] + .15, zb[-1] + .8]
    for a, b in zip(zb[:-1], zb[1:]):
        zs += list(a + (b - a) * np.array([.08, .37, .5, .81]))
    for ik, B in enumerate(bases):
        M = B.matrix(eta)
        ba = {}
        for z in zs + list(zb):
            h, il = B.at(z, "H")
            ba[z] = (h, B.at(z, "curlH")[0], il)
        for m in range(ne):
            one_mode(R, gme, case, ik, m, B, M, eta, area, zs, zb, ba)
    maps(R, gme, phc, ne, len(kps), zb, case)


def one_mode(R, gme, case, ik, m, B, M, eta, area, zs, zb, ba):
    om = 2 * np.pi * float(gme.freqs[ik][m])
    if om < 1e-2:
        R.count("skipped zero mode")
        return
    R.state((case["lat"], case["stack"], case["tr"], case["eff"], case["li"],
             ik, m))
    F = {}
    for z in zs + list(zb):
        F[z] = np.array(gme.ft_field_xy("H", ik, m, z)) * np.sqrt(area)
        R.step()
    ng = B.gvec.shape[1]
    c = np.zeros(len(B.fn), complex)
    worst = 0.
    hmax = max(np.max(np.abs(f)) for f in F.values())
    for G in range(ng):
        idx = np.where(B.gi == G)[0]
        rhs = np.concatenate([F[z][:, G] for z in zs])
        if len(idx) == 0:
            worst = max(worst, np.max(np.abs(rhs)))
            continue
        A = np.concatenate([ba[z][0][:, idx] for z in zs])
        c[idx] = np.linalg.lstsq(A, rhs, rcond=None)[0]
        worst = max(worst, np.max(np.abs(A @ c[idx] - rhs)))
    R.trace()
    if not R.check(worst < 2e-6 * hmax, "H not in the span of guided modes",
                   "k %d mode %d residual %.2e" % (ik, m, worst / hmax)):
        return
    R.outcome(tuple(np.round(np.abs(c), 4)))
    R.check(abs(np.linalg.norm(c) - 1) < 1e-5, "normalisation",
            "k %d mode %d norm %s" % (ik, m, np.linalg.norm(c)))
    res = np.linalg.norm(M @ c - om**2 * c) / max(1, om**2)
    R.check(res < 2e-5, "field is not the eigenvector",
            "k %d mode %d residual %.2e" % (ik, m, res))
    for z in zb:       # every component of H is continuous at interfaces
        err = np.max(np.abs(F[z] - np.array(
            [np.bincount(B.gi, (ba[z][0][i] * c).real, ng) +
             1j * np.bincount(B.gi, (ba[z][0][i] * c).imag, ng)
             for i in range(3)])))
        R.check(err < 1e-5 * hmax, "H discontinuous", "z=%g err %.2e" %
                (z, err / hmax))
    dmax, ed, ee, emax = 1e-9, 0., 0., 1e-9
    for z in zs:
        D = np.array(gme.ft_field_xy("d", ik, m, z)) * np.sqrt(area)
        E = np.array(gme.ft_field_xy("E", ik, m, z)) * np.sqrt(area)
        R.step(2)
        h, cu, il = ba[z]
        rd = np.zeros((3, ng), complex)
        for i in range(3):
            np.add.at(rd[i], B.gi, -1j / om * cu[i] * c)
        re = np.array([eta[il] @ x for x in rd])
        dmax, emax = max(dmax, np.abs(rd).max()), max(emax, np.abs(re).max())
        ed, ee = max(ed, np.abs(D - rd).max()), max(ee, np.abs(E - re).max())
    R.check(ed < 1e-5 * dmax, "D is not curl H", "k %d mode %d err %.2e" %
            (ik, m, ed / dmax))
    R.check(ee < 1e-5 * emax, "E is not D/eps", "k %d mode %d err %.2e" %
            (ik, m, ee / emax))


def maps(R, gme, phc, ne, nk, zb, case):
    gv = np.array(gme.gvec)
    x = np.array([-.3, .1, .45])
    y = np.array([.2, -.37])
    z = np.array([-.3, .5 * zb[1], zb[-1] + .2])
    cells = [(k, m) for k in range(nk) for m in range(ne)]
    for n, (k, m) in enumerate(cells):
        for field in ("H", "D", "E"):
            if gme.freqs[k][m] < 1e-3:
                continue
            ft = [gme.ft_field_xy(field, k, m, zz) for zz in z]
            ref = np.array([[ftsum(f, gv, x, y) for f in t] for t in ft])
            sc = np.abs(ref).max() + 1e-9
            for comp in (COMPS if n == 0 else ["xyz"]):
                R.step(3)
                R.trace()
                for i, zz in enumerate(z):
                    fi, xg, yg = gme.get_field_xy(field, k, m, zz, x, y, comp)
                    ok = set(fi) == set(comp) and np.array_equal(xg, x) and \
                        np.array_equal(yg, y) and all(
                            fi[q].shape == (2, 3) and
                            np.abs(fi[q] - ref[i]["xyz".index(q)]).max() <
                            1e-9 * sc for q in set(comp))
                    R.check(ok, "xy map", "%s %s" % (field, comp))
                for j, yy in enumerate(y):
                    fi, xg, zg = gme.get_field_xz(field, k, m, yy, x, z, comp)
                    ok = set(fi) == set(comp) and all(
                        fi[q].shape == (3, 3) and
                        np.abs(fi[q] - ref[:, "xyz".index(q), j, :]).max() <
                        1e-9 * sc for q in set(comp))
                    R.check(ok, "xz map", "%s %s" % (field, comp))
                for j, xx in enumerate(x):
                    fi, yg, zg = gme.get_field_yz(field, k, m, xx, y, z, comp)
                    ok = set(fi) == set(comp) and all(
                        fi[q].shape == (3, 2) and
                        np.abs(fi[q] - ref[:, "xyz".index(q), :, j]).max() <
                        1e-9 * sc for q in set(comp))
                    R.check(ok, "yz map", "%s %s" % (field, comp))
    # default grids, one given grid, rejected components
    lat = phc.lattice
    fi, xg, yg = gme.get_field_xy("H", 0, 0, z[1], Nx=4, Ny=3, component="z")
    (xr, yr) = lat.xy_grid(Nx=4, Ny=3)
    R.check(np.array_equal(xg, xr) and np.array_equal(yg, yr) and
            np.allclose(fi["z"], ftsum(gme.ft_field_xy("H", 0, 0, z[1])[2],
                                       gv, xr, yr)), "default xy grid", "")
    for kw in (dict(xgrid=x), dict(ygrid=y)):
        fi, xg, yg = gme.get_field_xy("H", 0, 0, z[1], Nx=4, Ny=3,
                                      component="z", **kw)
        R.check(np.allclose(fi["z"], ftsum(
            gme.ft_field_xy("H", 0, 0, z[1])[2], gv, xg, yg)) and
                np.array_equal(xg, kw.get("xgrid", xr)) and
                np.array_equal(yg, kw.get("ygrid", yr)), "partial grid",
                str(kw))
    zr = phc.z_grid(Nz=5, dist=.7)
    R.check(abs(zr[0] + .7) < 1e-12 and abs(zr[-1] - zb[-1] - .7) < 1e-12 and
            len(zr) == 5, "z_grid", str(zr))
    fi, xg, zg = gme.get_field_xz("H", 0, 0, .1, Nx=4, Nz=5, dist=.7,
                                  component="y")
    R.check(np.allclose(xg, lat.xy_grid(Nx=4, Ny=2)[0]) and
            np.array_equal(zg, zr) and np.allclose(fi["y"], np.array(
        [ftsum(gme.ft_field_xy("H", 0, 0, q)[1], gv, xg, [.1])[0]
         for q in zr])), "default xz grid", "")
    fi, yg, zg = gme.get_field_yz("H", 0, 0, .1, Ny=4, Nz=5, dist=.7,
                                  component="y")
    R.check(np.allclose(yg, lat.xy_grid(Nx=2, Ny=4)[1]) and
            np.array_equal(zg, zr) and np.allclose(fi["y"], np.array(
        [ftsum(gme.ft_field_xy("H", 0, 0, q)[1], gv, [.1], yg)[:, 0]
         for q in zr])), "default yz grid", "")
    for f, a in ((gme.get_field_xy, (z[0], x, y)),
                 (gme.get_field_xz, (.1, x, z)),
                 (gme.get_field_yz, (.1, y, z))):
        try:
            f("H", 0, 0, *a, component="xw")
            R.fail("unknown component accepted", "")
        except ValueError:
            pass
