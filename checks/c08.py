"""C08: options that select how a result is computed do not change it."""
import io
import contextlib
import itertools
import numpy as np
from vk import structs
from vk.stacks import S

PROPERTY = "C08"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "'interp' results are compared among equivalent options on the same grid "
    "and must approach the exact ones on a finer grid",
    "losses of degenerate modes are compared as a sum",
    "eigsh with a target selects the nearest modes in squared frequency, eigh "
    "in frequency: either set is accepted",
]
BOUNDS = {
    "quick": "2-3 lattices x 10 stacks x abs/tbt x 3 k-points: all 192 "
             "combinations of eigensolver, guided-mode computation, gradient "
             "option, backend, verbosity, loss timing, one/many k per run and "
             "number of modes; 4 targets with eigenvectors; numerical settings; truncations with equal vectors; "
             "parity-decoupled index lists; PWE combinations; rejected values",
    "thorough": "7 lattices, larger cutoff, 5 k-points",
}
KP = [(.7, .4), (-2.2, 1.9), (.05, 3.), (5.1, -7.3), (np.pi, 0.)]
INDS = [0, 1, 2, 3]
NPTS = 60


def cases(tier):
    th = tier == "thorough"
    out = []
    lats = list(structs.LATTICES) if th else ["square", "hexagonal", "oblique"]
    for lat in (lats if th else lats[1:]):
        for st in S:
            for tr in ("abs", "tbt"):
                out.append(dict(kind="gme", lat=lat, st=st, tr=tr,
                                gmax=1.7 if th else 1.2, nk=5 if th else 3))
    for lat, gmax in (("square", 1.5), ("rect", 1.3), ("rotated", 1.5)):
        for st in S:
            out.append(dict(kind="trunc", lat=lat, st=st, gmax=gmax))
    for lat in lats:
        for st in ("hole", "rod", "asym", "thick", "flat", "film"):
            out.append(dict(kind="decouple", lat=lat, st=st))
    for lat in lats:
        for st in S:
            out.append(dict(kind="pwe", lat=lat, st=st))
    for lat in lats:
        for st in ("hole", "asym", "thick") if th else ("hole", "asym"):
            out.append(dict(kind="interp", lat=lat, st=st))
    out.append(dict(kind="reject"))
    return out


def clusters(f, tol=2e-6):
    out, a = [], 0
    for i in range(1, len(f) + 1):
        if i == len(f) or f[i] - f[i - 1] > tol:
            out.append((a, i))
            a = i
    return out


STK = dict(S, film=dict(l=(1., []), u=(1., []), layers=[(.4, 10., [])]))


def make(legume, case):
    lat = structs.lattice(legume, case["lat"])
    return structs.build_phc(legume, lat, STK[case["st"]])


def result(g, n):
    return (np.array(g.freqs), np.array(g.freqs_im), np.array(g.unbalance_sp))


def compare(R, key, got, ref, fullf, ne, tol, info):
    f, im, ub = got
    f0, i0, u0 = ref
    if not R.check(f.shape == (len(fullf), ne) and im.shape == f.shape and
                   ub.shape == f.shape, key + ": shape",
                   "%s %s %s" % (info, f.shape, im.shape)):
        return
    for k in range(len(fullf)):
        if not R.check(np.max(np.abs(f[k] - f0[k][:ne])) < tol, key,
                       "%s k=%d: %s expected %s" % (info, k, f[k],
                                                    f0[k][:ne])):
            continue
        for a, b in clusters(fullf[k]):
            if b > ne:
                break
            x, y = im[k][a:b].sum(), i0[k][a:b].sum()
            R.check(abs(x - y) < 1e-4 * y + 1e-9, key + ": loss",
                    "%s k=%d modes %d..%d: %s expected %s" %
                    (info, k, a, b, x, y))
            if b == a + 1 and y > 1e-8:
                R.check(abs(ub[k][a] - u0[k][a]) < 1e-3, key + ": unbalance",
                        "%s k=%d mode %d" % (info, k, a))


def run_case(case, R):
    import legume
    legume.set_print_backend("rich")
    try:
        globals()["do_" + case["kind"]](legume, case, R)
    finally:
        legume.set_backend("numpy")
        legume.set_print_backend("rich")


def do_gme(legume, case, R):
    phc = make(legume, case)
    kps = np.array(KP[:case["nk"]]).T

    def new():
        return legume.GuidedModeExp(phc, gmax=case["gmax"],
                                    truncate_g=case["tr"])

    g = new()
    try:
        g.run(kpoints=kps.copy(), gmode_inds=INDS, numeig=1, verbose=False)
    except RuntimeError:
        R.count("no guided modes")
        return
    n = min(g.N_basis)
    g.run(kpoints=kps.copy(), gmode_inds=INDS, numeig=min(n, 9),
          verbose=False)
    full = np.array(g.freqs)
    ref = result(g, 9)
    gi = new()
    gi.run(kpoints=kps.copy(), gmode_inds=INDS, numeig=min(n, 9),
           verbose=False, gmode_compute="interp", gmode_npts=NPTS)
    refi, fulli = result(gi, 9), np.array(gi.freqs)
    names = ("solver", "gmode", "grad", "backend", "verbose", "im", "split")
    for ne in sorted({1, min(4, n - 2)} | ({min(7, n - 2)} if case["nk"] > 3
                                               else set())):
        for combo in itertools.product(
            ("eigh", "eigsh"), ("exact", "interp"), ("exact", "approx"),
            ("numpy", "autograd"), ("quiet", "rich", "base"),
                ("run", "later"), (False, True)):
            sv, gm, gr, bk, vb, imm, split = combo
            # the printing variants are combined with one value of the rest
            if vb != "quiet" and (gr, imm, split) != ("exact", "run", False):
                continue
            if (gr, bk) == ("approx", "numpy") and split:
                continue
            # interpolation is slow: one number of modes, one grid
            if gm == "interp" and (split or ne != 4 or imm == "later" or
                                   (vb != "quiet") != (bk == "autograd")):
                continue
            R.state((case["lat"], case["st"], case["tr"], ne, combo))
            R.trace()
            legume.set_backend(bk)
            if vb != "quiet":
                legume.set_print_backend(vb)
            g = new()
            fs, ims, ubs = [], [], []
            kk = [kps[:, [i]] for i in range(kps.shape[1])] if split else [kps]
            out = io.StringIO()
            for k in kk:
                R.step()
                with contextlib.redirect_stdout(out):
                    g.run(kpoints=k.copy(), gmode_inds=INDS, numeig=ne,
                          eig_solver=sv, gmode_compute=gm, gradients=gr,
                          gmode_npts=NPTS,
                          verbose=vb != "quiet", compute_im=imm == "run")
                    if imm == "later":
                        R.check(len(g.freqs) == k.shape[1], "freqs", "")
                        g.run_im()
                f, im, ub = result(g, ne)
                fs.append(f), ims.append(im), ubs.append(ub)
            legume.set_backend("numpy")
            info = dict(zip(names, combo))
            R.check(vb != "quiet" or out.getvalue() == "",
                    "verbose=False prints", "%s %r" % (info,
                                                       out.getvalue()[:99]))
            R.check(vb == "quiet" or "GuidedModeExp" in out.getvalue(),
                    "verbose=True prints no report", str(info))
            got = tuple(np.concatenate(x) for x in (fs, ims, ubs))
            R.outcome(tuple(np.round(got[0][0], 6)))
            compare(R, "%s/%s/%s/%s" % (sv, gm, gr, bk), got,
                    refi if gm == "interp" else ref,
                    fulli if gm == "interp" else full, ne, 1e-7,
                    "ne=%d %s" % (ne, info))
    # 'interp' converges to 'exact'
    err = [np.max(np.abs(fulli[:, :4] - full[:, :4]))]
    for npts in (12 * NPTS, ):
        g = new()
        g.run(kpoints=kps.copy(), gmode_inds=INDS, numeig=4, verbose=False,
              gmode_compute="interp", gmode_npts=npts, compute_im=False)
        err.append(np.max(np.abs(np.array(g.freqs) - full[:, :4])))
        R.step()
    R.check(err[1] < err[0] + 2e-4 and err[1] < 5e-3,
            "interp does not converge", str(err))
    # targets
    g = new()
    allf, allv = [], []
    for i in range(kps.shape[1]):
        g.run(kpoints=kps[:, [i]].copy(), gmode_inds=INDS, numeig=1,
              compute_im=False, verbose=False)
        nb = int(g.N_basis[0])
        g.run(kpoints=kps[:, [i]].copy(), gmode_inds=INDS, numeig=nb,
              compute_im=False, verbose=False)
        allf.append(np.array(g.freqs[0]))
        allv.append(np.array(g.eigvecs[0]))
    for sg in (.21, .37, .55, 5.):
        for sv in ("eigh", "eigsh"):
            for ne in sorted({1, 3, min(8, min(map(len, allf)) - 2)}):
                g = new()
                g.run(kpoints=kps.copy(), gmode_inds=INDS, numeig=ne,
                      eig_sigma=sg, eig_solver=sv, compute_im=False,
                      verbose=False)
                R.step()
                R.trace()
                for i in range(kps.shape[1]):
                    ok = False
                    for d in (np.abs(allf[i] - sg), np.abs(allf[i]**2 -
                                                           sg**2)):
                        want = np.sort(allf[i][np.argsort(d)[:ne]])
                        ok |= np.max(np.abs(want - g.freqs[i])) < 1e-7
                        # ties at the edge of the set
                        ds = np.sort(d)
                        ok |= len(ds) > ne and ds[ne] - ds[ne - 1] < 1e-6
                    if not R.check(ok, "target", "sigma=%s %s ne=%d: %s" %
                                   (sg, sv, ne, g.freqs[i])):
                        continue
                    # each eigenvector lies in the space of its frequency
                    v = np.array(g.eigvecs[i])
                    R.check(v.shape == (len(allf[i]), ne), "vectors", "")
                    for m in range(ne):
                        if g.freqs[i][m] < 1e-2:
                            continue
                        s = np.abs(allf[i] - g.freqs[i][m]) < 1e-6
                        w = np.linalg.norm(allv[i][:, s].conj().T @ v[:, m])
                        R.check(abs(w - 1) < 1e-5, "target: eigenvector",
                                "sigma=%s %s ne=%d mode %d f=%g: weight %g" %
                                (sg, sv, ne, m, g.freqs[i][m], w))


def do_trunc(legume, case, R):
    phc = make(legume, case)
    kps = np.array(KP[:3]).T
    res = []
    for tr in ("abs", "tbt"):
        g = legume.GuidedModeExp(phc, gmax=case["gmax"], truncate_g=tr)
        gv = np.array(g.gvec)
        R.state((case["lat"], case["st"], tr))
        R.step()
        g.run(kpoints=kps.copy(), gmode_inds=INDS, numeig=8, verbose=False)
        res.append((gv, result(g, 8)))
        # numerical settings within their documented meaning
        for kw in (dict(delta_gx=1e-12), dict(delta_gabs=1e-12),
                   dict(gmode_step=3e-3), dict(gmode_tol=1e-9),
                   dict(symm_thr=1e-3), dict(gmode_npts=7),
                   dict(use_sparse=True), dict(gmode_inds=np.array(INDS)),
                   dict(gmode_inds=tuple(INDS))):
            g = legume.GuidedModeExp(phc, gmax=case["gmax"], truncate_g=tr)
            g.run(**dict(dict(kpoints=kps.copy(), gmode_inds=INDS, numeig=8,
                              verbose=False), **kw))
            R.step()
            R.trace()
            compare(R, "settings", result(g, 8), res[-1][1], res[-1][1][0], 8,
                    1e-7, "%s %s" % (tr, kw))
    a, b = (set(map(tuple, np.round(x[0].T, 6) + 0.)) for x in res)
    R.check(a == b, "vectors differ", "")
    R.trace()
    R.outcome(tuple(np.round(res[0][1][0][0], 6)))
    compare(R, "truncation", res[1][1], res[0][1], res[0][1][0], 8, 1e-7, "")


def do_interp(legume, case, R):
    """The whole spectrum, for wavevectors along the basis vectors and along
    diagonals, where |k + G| comes closest to |k| + |G|."""
    phc = make(legume, case)
    g = legume.GuidedModeExp(phc, gmax=1.2, truncate_g="abs")
    G = np.array(g.gvec).T
    G = G[np.argsort(np.hypot(*G.T))]
    dirs = [tuple(x / np.hypot(*x)) for x in (G[-1], G[-4])]
    dirs += [(.6, .8), (-.5**.5, .5**.5)]
    for d in dirs:
        for q in (3.3, 7.1):
            k = np.array([d]).T * q
            f = []
            for kw in ({}, dict(gmode_compute="interp", gmode_npts=400)):
                g.run(kpoints=k.copy(), gmode_inds=INDS, numeig=1,
                      verbose=False, compute_im=False, **kw)
                g.run(kpoints=k.copy(), gmode_inds=INDS,
                      numeig=int(g.N_basis[0]), verbose=False,
                      compute_im=False, **kw)
                f.append(np.array(g.freqs[0]))
                R.step(2)
            R.state((case["lat"], case["st"], tuple(k[:, 0])))
            R.trace()
            if not R.check(abs(len(f[0]) - len(f[1])) <= 2, "interp: basis",
                           "k=%s" % k[:, 0]):
                continue
            if len(f[0]) == len(f[1]):
                e = np.max(np.abs(f[0] - f[1]))
                R.outcome(round(float(e), 5))
                R.check(e < 2e-2, "interp: whole spectrum",
                        "k=%s: error %.3g" % (k[:, 0], e))


def do_decouple(legume, case, R):
    """Guided modes of opposite parity about the slab's mid-plane (or, without
    lateral modulation, of different polarisation) decouple."""
    phc = make(legume, case)
    groups = [([0, 3], [1, 2]), ([0, 3, 4], [1, 2, 5])]
    if case["st"] == "flat":
        groups = []
    if case["st"] in ("flat", "film"):
        groups += [([0, 2], [1, 3]), ([0], [1, 2, 3]), ([0, 2, 1], [3])]
    for tr in ("abs", "tbt"):
        for k in KP:
            for a, b in groups:
                g = legume.GuidedModeExp(phc, gmax=1.2, truncate_g=tr)
                fr = []
                for inds in (a, b, sorted(a + b)):
                    try:
                        g.run(kpoints=np.array([k]).T, gmode_inds=inds,
                              numeig=1, compute_im=False, verbose=False)
                        g.run(kpoints=np.array([k]).T, gmode_inds=inds,
                              numeig=int(g.N_basis[0]), compute_im=False,
                              verbose=False)
                        fr.append(np.array(g.freqs[0]))
                    except RuntimeError:
                        fr.append(np.zeros(0))
                    R.step(2)
                R.state((case["lat"], case["st"], tr, k, tuple(a)))
                R.trace()
                u = np.sort(np.concatenate(fr[:2]))
                R.outcome(tuple(np.round(u[:4], 6)))
                R.check(u.shape == fr[2].shape and
                        (len(u) == 0 or np.max(np.abs(u - fr[2])) < 1e-6),
                        "decoupled lists", "%s|%s k=%s: %s expected %s" %
                        (a, b, k, u[:5], fr[2][:5]))
    # only_gmodes equals the structure without lateral modulation
    stack = STK[case["st"]]
    lat = structs.lattice(legume, case["lat"])
    area = lat.ec_area
    flat = legume.PhotCryst(lat, eps_l=structs.eps_avg(stack["l"], area),
                            eps_u=structs.eps_avg(stack["u"], area))
    for d, e, sh in stack["layers"]:
        flat.add_layer(d, structs.eps_avg((e, sh), area))
    for k in KP:
        r = []
        for p, kw in ((phc, dict(only_gmodes=True)), (flat, {})):
            g = legume.GuidedModeExp(p, gmax=1.2, truncate_g="abs")
            R.step()
            try:
                g.run(kpoints=np.array([k]).T, gmode_inds=INDS, numeig=5,
                      verbose=False, compute_im=False, **kw)
                r.append(np.array(g.freqs[0]))
            except RuntimeError:
                r.append(None)
        R.trace()
        if r[1] is None or r[0] is None:
            R.check(r[0] is None and r[1] is None, "only_gmodes", "error")
        else:
            R.check(np.max(np.abs(r[0] - r[1])) < 1e-7, "only_gmodes",
                    "k=%s %s expected %s" % (k, r[0], r[1]))


def do_pwe(legume, case, R):
    phc = make(legume, case)
    layer = phc.layers[0]
    kps = np.array(KP).T
    for pol, name2 in (("te", "TE"), ("tm", "TM")):
        p = legume.PlaneWaveExp(layer, gmax=1.6)
        p.run(kpoints=kps.copy(), pol=pol, numeig=9)
        ref = np.array(p.freqs)
        for ne in (1, 4, 9):
            for bk in ("numpy", "autograd"):
                for split in (False, True):
                    for nm in (pol, name2):
                        legume.set_backend(bk)
                        p = legume.PlaneWaveExp(layer, gmax=1.6)
                        fs = []
                        for k in ([kps[:, [i]] for i in range(kps.shape[1])]
                                  if split else [kps]):
                            p.run(kpoints=k.copy(), pol=nm, numeig=ne)
                            fs.append(np.array(p.freqs))
                            R.step()
                        legume.set_backend("numpy")
                        f = np.concatenate(fs)
                        R.state((case["lat"], case["st"], pol, ne, bk, split,
                                 nm))
                        R.trace()
                        R.outcome(tuple(np.round(f[0], 6)))
                        R.check(f.shape == (kps.shape[1], ne) and
                                np.max(np.abs(f - ref[:, :ne])) < 1e-8,
                                "pwe options", "%s" % [pol, ne, bk, split])


def do_reject(legume, case, R):
    lat = legume.Lattice("square")
    phc = legume.PhotCryst(lat)
    phc.add_layer(.3, 12.)
    phc.add_shape(legume.Circle(eps=1., r=.3))
    k = np.array([[.7], [.4]])

    def must(name, f):
        R.state(name)
        R.step()
        try:
            f()
        except Exception:
            R.trace()
            R.outcome(name)
            return
        R.fail("accepted: " + name, "")

    for tr in ("abs", "tbt"):
        for kw in (dict(eig_solver="foo"), dict(eps_eff="foo"),
                   dict(kz_symmetry="foo"), dict(gmode_compute="foo"),
                   dict(gradients="foo"), dict(numeig=10**4),
                   dict(numeig=10**4, eig_solver="eigsh"),
                   dict(nosuchoption=1)):
            g = legume.GuidedModeExp(phc, gmax=1.2, truncate_g=tr)
            must("run %s %s" % (tr, kw), lambda: g.run(kpoints=k.copy(),
                                                       verbose=False, **kw))
    g = legume.GuidedModeExp(phc, gmax=1.2, truncate_g="tbt")
    must("only_gmodes with tbt", lambda: g.run(kpoints=k.copy(), numeig=2,
                                               only_gmodes=True,
                                               verbose=False))
    for tr in ("foo", "", "TBT "):
        must("truncate_g %r" % tr,
             lambda: legume.GuidedModeExp(phc, gmax=1., truncate_g=tr))
    for nm in ("foo", "NumPy", ""):
        must("backend %r" % nm, lambda: legume.set_backend(nm))
        must("print backend %r" % nm, lambda: legume.set_print_backend(nm))
    R.check("Numpy" in repr(legume.backend), "backend changed by a "
            "rejected call", repr(legume.backend))
    p = legume.PlaneWaveExp(phc.layers[0], gmax=1.)
    for pol in ("foo", "", "t"):
        must("pol %r" % pol, lambda: p.run(kpoints=k.copy(), pol=pol))
