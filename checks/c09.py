"""C09: mirror (kz) symmetry separation of the slab modes."""
import itertools
import numpy as np
from vk import gmeref

PROPERTY = "C09"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "even = the electric field is symmetric under the mirror containing k and "
    "z (the library's convention: TM guided modes are even)",
    "at Gamma the static artefact of the clipped g = 0 mode couples parities "
    "at the 1e-7 level: symm_thr=1e-6 is passed there and modes below 1e-2 "
    "are not compared",
]
BOUNDS = {
    "quick": "square (5 mirror angles), hexagonal (4), rectangular (3) x 5 "
             "stacks x abs/tbt x 5 guided-mode lists (one reaching above "
             "cutoff) x 3 wavevectors along the mirror incl. Gamma; odd/even/"
             "both x dense/sparse x numeig in {1,4,all}; 5 modes nearest to an interior "
             "eig_sigma; two consecutive runs per object; every ordered pair "
             "of wavevectors (3 mirrors x 3) in one run; all rejected combinations",
    "thorough": "all angles -180..180 allowed for the lattice, larger cutoff, "
                "9 lists, 4 wavevectors",
}
LISTS = [[0, 1, 2, 3], [0, 1], [2, 1, 7], [0], [1, 0], [0, 3], [1],
         [0, 9], [5, 0, 3, 2]]
ANG = {"square": [0, 45, 90, 180, -135], "hexagonal": [0, 30, 90, -120],
       "rectangular": [0, 90, -180]}
ALL = {"square": list(range(-180, 181, 45)),
       "hexagonal": list(range(-180, 181, 30)),
       "rectangular": list(range(-180, 181, 90))}
KT = [0., 2.3, .9, 4.1]

# Shapes symmetric about the x-axis (rotated by the mirror angle when used)
PAT = {
    "dot": [("c", .12, 0., .2)],
    "pair": [("c", .0, .25, .12), ("c", .0, -.25, .12)],
    "tri": [("p", [(-.2, -.25), (.25, 0.), (-.2, .25)])],
    "ell": [("e", -.05, 0., .3, .15)],
}
# (eps_l, eps_u, [(d, eps_b, pattern, eps_s)], (pattern, eps in claddings))
ST = {
    "sym": (1., 1., [(.3, 12., "tri", 1.)], None),
    "asym": (2.1, 1., [(.2, 12., "dot", 1.), (.15, 5., "pair", 2.)], None),
    "clad": (1.6, 1., [(.3, 10., "ell", 2.)], ("dot", 1.4)),
    "thin": (2., 2., [(.12, 9., "pair", 1.)], None),
    "multi": (1., 1.5, [(.15, 10., "tri", 1.), (.1, 3., None, None),
                        (.25, 11., "dot", 2.)], None),
}


def cases(tier):
    th = tier == "thorough"
    out = []
    for lat in ANG:
        for th_ in (ALL if th else ANG)[lat]:
            for st in ST:
                for tr in ("abs", "tbt"):
                    out.append(dict(kind="sep", lat=lat, ang=th_, st=st, tr=tr,
                                    gmax=1.9 if th else 1.2,
                                    nl=len(LISTS) if th else 5,
                                    nt=4 if th else 3,
                                    fr=[.35, .7] if th else [.45]))
    # a cutoff exactly on a shell of reciprocal lattice vectors
    for th_ in (0, 45, 90, -135):
        for st in (ST if th else ("asym", "clad")):
            out.append(dict(kind="sep", lat="square", ang=th_, st=st, tr="abs",
                            gmax=1., nl=3, nt=2, fr=[.45]))
    # several wavevectors, along different mirrors, in one run
    for lat in ANG:
        for inds in ([0], [0, 1, 2]) if not th else LISTS[:5]:
            for kz in ("odd", "even", "both"):
                out.append(dict(kind="path", lat=lat, inds=inds, kz=kz,
                                nt=4 if th else 3, nang=5 if th else 3))
    out.append(dict(kind="reject"))
    return out


def path(case, R, legume):
    """Every ordered pair of wavevectors (and all of them) in one run gives
    what they give one by one."""
    lat = legume.Lattice([1., 0.], [0., 1.8]) \
        if case["lat"] == "rectangular" else legume.Lattice(case["lat"])
    phc = legume.PhotCryst(lat, eps_u=1.5)
    phc.add_layer(d=.3, eps_b=12.)
    phc.add_shape(legume.Circle(eps=1., r=.3))
    phc.add_layer(d=.1, eps_b=4.)
    pts = [(a, t) for a in ANG[case["lat"]][:case["nang"]]
           for t in (KT[:case["nt"]] if a == 0 else [.6] + KT[1:case["nt"]])]
    sets = list(itertools.product(range(len(pts)), repeat=2))
    sets += [tuple(range(len(pts))), tuple(range(len(pts)))[::-1]]
    kw = dict(gmode_inds=case["inds"], kz_symmetry=case["kz"], verbose=False,
              symm_thr=1e-6, compute_im=True)

    def run(idx, sparse):
        g = legume.GuidedModeExp(phc, gmax=1.5)
        a = np.array([pts[i][0] for i in idx], float)
        t = np.array([pts[i][1] for i in idx])
        k = t * np.array([np.cos(np.deg2rad(a)), np.sin(np.deg2rad(a))])
        g.run(kpoints=k, angles=a, numeig=ne, use_sparse=sparse, **kw)
        R.step()
        return [(g.freqs[j], np.array(g.freqs_im)[j], np.array(g.kz_symms)[j],
                 np.array(g.eigvecs[j])) for j in range(len(idx))]
    for sparse in (False, True):
        ne = (6 if case["kz"] == "both" else 2 if len(case["inds"]) == 1
              else 5)
        one_ = [run((i, ), sparse)[0] for i in range(len(pts))]
        for idx in sets:
            R.state((case["lat"], tuple(case["inds"]), case["kz"], sparse,
                     idx))
            got = run(idx, sparse)
            R.trace()
            for i, (f, fi, s, v) in zip(idx, got):
                F, Fi, Sy, V = one_[i]
                info = "%s of %s" % (pts[i], [pts[j] for j in idx])
                R.outcome(tuple(np.round(f, 5)))
                if not R.check(np.allclose(f**2, F**2, atol=1e-7),
                               "path: spectrum", info):
                    return
                sep_ = np.concatenate(([1], np.diff(F), [1]))
                ok = (sep_[:-1] > 1e-6) & (sep_[1:] > 1e-6) & (F > 1e-2)
                ok[-1] = False
                R.check(np.array_equal(s[ok], Sy[ok]), "path: labels",
                        "%s %s expected %s" % (info, s, Sy))
                R.check(np.allclose(fi[ok], Fi[ok], rtol=1e-5, atol=1e-9),
                        "path: loss", "%s %s expected %s" % (info, fi, Fi))
                R.check(v.shape == V.shape and np.allclose(
                    np.abs(np.sum(v.conj() * V, axis=0))[ok], 1, atol=1e-6),
                    "path: eigenvectors", info)


def shape(legume, s, eps, ang):
    t = np.deg2rad(ang)
    c, si = np.cos(t), np.sin(t)
    if s[0] == "p":
        v = [(c * x - si * y, si * x + c * y) for x, y in s[1]]
        return legume.Poly(eps=eps, x_edges=[a for a, _ in v],
                           y_edges=[b for _, b in v])
    x, y = c * s[1] - si * s[2], si * s[1] + c * s[2]
    if s[0] == "c":
        return legume.Circle(eps=eps, x_cent=x, y_cent=y, r=s[3])
    return legume.Ellipse(eps=eps, x_cent=x, y_cent=y, rx=s[3], ry=s[4], phi=t)


def build(legume, latname, st, ang, off=0.):
    lat = legume.Lattice([1., 0.], [0., 1.2]) if latname == "rectangular" \
        else legume.Lattice(latname)
    el, eu, layers, clad = ST[st]
    phc = legume.PhotCryst(lat, eps_l=el, eps_u=eu)
    for d, eb, pat, es in layers:
        phc.add_layer(d=d, eps_b=eb)
        for s in PAT[pat] if pat else []:
            phc.add_shape(shape(legume, s, es, ang + off))
    if clad:
        for i in (0, 1):
            for s in PAT[clad[0]]:
                phc.add_shape(shape(legume, s, clad[1], ang + off), cladding=i)
    return phc


def refl(ang):
    t = 2 * np.deg2rad(ang)
    return np.array([[np.cos(t), np.sin(t)], [np.sin(t), -np.cos(t)]])


def gmap(gvec, Rm):
    """Index of R g for every g, or None if the basis is not closed."""
    out = []
    for g in (Rm @ gvec).T:
        d = np.hypot(*(gvec - g[:, None]))
        j = int(np.argmin(d))
        if d[j] > 1e-6:
            return None
        out.append(j)
    return np.array(out)


def parity(gme, Rm, gm, ik, m):
    """(parity estimate, symmetric residual) of H of a mode from its fields:
    H is an axial vector: H'(r) = -R H(R r)."""
    num = den = 0.
    res = {1: 0., -1: 0.}
    zt = sum(l.d for l in gme.phc.layers)
    for z in (-.1, .3 * zt, .75 * zt, zt + .2):
        h = np.array(gme.ft_field_xy("H", ik, m, z))
        hr = np.empty_like(h)
        hr[:2, gm] = -(Rm @ h[:2])
        hr[2, gm] = -h[2]
        num += np.real(np.vdot(h, hr))
        den += np.vdot(h, h).real
        for p in res:
            res[p] += np.linalg.norm(hr - p * h)**2
    p = 1 if num > 0 else -1
    return p, np.sqrt(res[p] / den), num / den


def clusters(f, tol=1e-6):
    out, a = [], 0
    for i in range(1, len(f) + 1):
        if i == len(f) or f[i] - f[i - 1] > tol:
            out.append((a, i))
            a = i
    return out


def run_case(case, R):
    import legume
    if case["kind"] == "reject":
        return rejected(legume, R)
    if case["kind"] == "path":
        return path(case, R, legume)
    ang, tr = case["ang"], case["tr"]
    phc = build(legume, case["lat"], case["st"], ang)
    gme = legume.GuidedModeExp(phc, gmax=case["gmax"], truncate_g=tr)
    gvec = np.array(gme.gvec)
    Rm = refl(ang)
    gm = gmap(gvec, Rm)
    u = np.array([np.cos(np.deg2rad(ang)), np.sin(np.deg2rad(ang))])
    sep = legume.GuidedModeExp(phc, gmax=case["gmax"], truncate_g=tr)
    for il, inds in enumerate(LISTS[:case["nl"]]):
        for it, t in enumerate(KT[:case["nt"]]):
            k = (t * u)[:, None]
            base = dict(gmode_inds=inds, verbose=False,
                        symm_thr=1e-6 if t == 0 else 1e-8)
            try:
                gme.run(kpoints=k.copy(), numeig=1, compute_im=False,
                        gmode_inds=inds, verbose=False)
            except RuntimeError:
                R.count("no guided modes")
                continue
            n = int(gme.N_basis[-1])
            if gm is None:
                for kz in ("odd", "even", "both"):
                    R.step()
                    try:
                        sep.run(kpoints=k.copy(), angles=np.array([ang]),
                                kz_symmetry=kz, numeig=1, **base)
                        R.fail("non-symmetric basis accepted",
                               "%s %s" % (kz, inds))
                    except ValueError:
                        R.trace()
                        R.outcome("rejected basis")
                continue
            # reference: unseparated spectrum, parity of every cluster
            gme.run(kpoints=k.copy(), numeig=n, compute_im=False,
                    gmode_inds=inds, verbose=False)
            f0 = np.array(gme.freqs[0])
            nl = min(n, 10)
            cl = [c for c in clusters(f0) if f0[c[0]] > 1e-2]
            lossy = gme_losses(gme, min(n, 12))
            one(R, case, sep, gme, k, ang, Rm, gm, base, n, f0, cl, lossy, il,
                it)


def gme_losses(gme, m):
    im, _, _ = gme.compute_rad(0, list(range(m)))
    return np.array(im)


def one(R, case, sep, gme, k, ang, Rm, gm, base, n, f0, cl, lossy, il, it):
    info = "list %s t=%d" % (base["gmode_inds"], it)
    thr = 1e-2
    # full odd and even spectra with both separation algorithms
    spec, cnt, par = {}, {}, {}
    for sparse in (False, True):
        kw = dict(base, use_sparse=sparse, compute_im=False)
        R.step()
        sep.run(kpoints=k.copy(), angles=np.array([ang]), kz_symmetry="both",
                numeig=n, **kw)
        R.trace()
        f = np.array(sep.freqs[0])
        R.outcome(tuple(np.round(f[:3], 5)))
        R.state((case["lat"], ang, case["st"], case["tr"], il, it, sparse))
        if not R.check(f.shape == f0.shape and
                       np.max(np.abs(f**2 - f0**2)) < 1e-6,
                       "both: spectrum", "%s sparse=%s %s expected %s" %
                       (info, sparse, f[:6], f0[:6])):
            return
        s = np.array(sep.kz_symms)
        if not R.check(s.shape == (1, n) and set(s[0]) <= {1, -1},
                       "labels", "%s %s" % (info, s)):
            return
        ne, no = int(np.sum(s[0] == 1)), int(np.sum(s[0] == -1))
        spec[sparse] = {p: f[s[0] == p] for p in (1, -1)}
        cnt[sparse] = {1: ne, -1: no}
        if not sparse:
            for m in range(n if n <= 10 else 10):
                if f[m] < thr:
                    continue
                p, r, _ = parity(sep, Rm, gm, 0, m)
                R.check(r < 1e-4, "field has no definite parity",
                        "%s mode %d %s" % (info, m, r))
                R.check(p == s[0][m], "wrong parity label",
                        "%s mode %d f=%.5f label %s field %s" %
                        (info, m, f[m], s[0][m], p))
            par = orth(R, sep, n, info)
    for p in (1, -1):
        a, b = spec[False][p], spec[True][p]
        R.check(a.shape == b.shape and np.allclose(a**2, b**2, atol=1e-6),
                "dense and sparse differ", info)
    # independent count of parities per cluster from unseparated fields
    for a, b in [c for c in cl if c[1] <= min(n, 8)]:
        tr = sum(parity(gme, Rm, gm, 0, m)[2] for m in range(a, b)) \
            if b - a == 1 else None
        if tr is not None:
            p = 1 if tr > 0 else -1
            R.check(np.min(np.abs(spec[False][p] - f0[a])) < 1e-6 or
                    len(spec[False][p]) == 0,
                    "mode missing from its parity", "%s f=%s p=%d" %
                    (info, f0[a], p))
    # single-parity and partial runs; losses and fields
    for kz, p in (("odd", -1), ("even", 1), ("Odd", -1)):
        full = np.sort(spec[False][p])
        for ne in sorted({1, min(4, len(full)), len(full)}):
            if ne == 0 or ne > len(full):
                continue
            if kz == "Odd" and ne > 1:
                continue
            for sparse in (False, True):
                im = ne <= 4
                R.step()
                sep.run(kpoints=k.copy(), angles=np.array([ang]),
                        kz_symmetry=kz, numeig=ne, use_sparse=sparse,
                        compute_im=im, **base)
                R.trace()
                f = np.array(sep.freqs[0])
                R.check(f.shape == (ne, ) and
                        np.max(np.abs(f**2 - full[:ne]**2)) < 1e-6,
                        "%s spectrum" % kz.lower(), "%s %s expected %s" %
                        (info, f, full[:ne]))
                R.check(np.shape(sep.kz_symms) == (1, ne) and
                        np.all(np.array(sep.kz_symms) == p), "labels",
                        "%s %s" % (info, sep.kz_symms))
                for m in range(min(ne, 3)):
                    if f[m] < thr or sparse:
                        continue
                    q, r, _ = parity(sep, Rm, gm, 0, m)
                    R.check(q == p and r < 1e-4, "wrong field parity",
                            "%s %s mode %d" % (info, kz, m))
                if im:
                    losses(R, sep, f, f0, cl, lossy, info)
    for ne in sorted({1, min(4, n)}):
        sep.run(kpoints=k.copy(), angles=np.array([ang]), kz_symmetry="both",
                numeig=ne, **base)
        R.step()
        f = np.array(sep.freqs[0])
        R.check(f.shape == (ne, ) and
                np.max(np.abs(f**2 - f0[:ne]**2)) < 1e-6,
                "both: lowest modes", "%s %s" % (info, f))
        losses(R, sep, f, f0, cl, lossy, info)
    # modes nearest to a frequency inside the spectrum
    sp = spec[False]
    al = np.concatenate((sp[1], sp[-1]))
    lab = np.concatenate((np.ones(len(sp[1])), -np.ones(len(sp[-1]))))
    for frac in case["fr"]:
        fs = np.sort(al)
        i = int(frac * (n - 1))
        sig = fs[i] + .37 * (fs[min(i + 1, n - 1)] - fs[i])
        for kz, q in (("both", 0), ("odd", -1), ("even", 1)):
            pool = al if q == 0 else sp[q]
            ne = min(5, len(pool))
            if ne == 0:
                continue
            o = np.argsort(np.abs(pool - sig))
            dist = np.abs(pool - sig)[o]
            if ne < len(pool) and dist[ne] - dist[ne - 1] < 1e-6:
                R.count("sigma tie")
                continue
            exp = np.sort(pool[o[:ne]])
            R.step()
            sep.run(kpoints=k.copy(), angles=np.array([ang]), kz_symmetry=kz,
                    numeig=ne, eig_sigma=sig, compute_im=False, **base)
            R.trace()
            f = np.array(sep.freqs[0])
            if not R.check(f.shape == (ne, ) and
                           np.max(np.abs(f**2 - exp**2)) < 1e-6,
                           "modes nearest to eig_sigma",
                           "%s %s sigma=%g: %s expected %s" %
                           (info, kz, sig, f, exp)):
                continue
            s = np.array(sep.kz_symms)[0]
            for m in range(ne):
                near = lab[np.abs(al - f[m]) < 1e-6]
                R.check(s[m] in near, "label of a mode nearest to eig_sigma",
                        "%s %s f=%g %s expected %s" %
                        (info, kz, f[m], s[m], near))
            for m in (0, ne - 1):
                if f[m] < thr:
                    continue
                pf, r, _ = parity(sep, Rm, gm, 0, m)
                R.check(pf == s[m] and r < 1e-4, "field of a mode nearest to "
                        "eig_sigma", "%s %s mode %d %s" % (info, kz, m, r))
    # one more eigenvalue than the parity block holds
    for kz, p in (("odd", -1), ("even", 1)):
        try:
            sep.run(kpoints=k.copy(), angles=np.array([ang]), kz_symmetry=kz,
                    numeig=len(spec[False][p]) + 1, compute_im=False, **base)
            R.fail("too many eigenvalues accepted", info)
        except ValueError:
            pass


def orth(R, sep, n, info):
    v = np.array(sep.eigvecs[0])
    R.check(v.shape == (n, n) and np.allclose(v.conj().T @ v, np.eye(n),
                                              atol=1e-9),
            "eigenvectors not orthonormal", info)


def losses(R, sep, f, f0, cl, lossy, info):
    """Non-degenerate modes have the loss of the unseparated run."""
    fi = np.array(sep.freqs_im[0])
    for m in range(len(f)):
        for a, b in cl:
            if b - a == 1 and b <= len(lossy) and abs(f0[a] - f[m]) < 1e-7:
                R.check(abs(fi[m] - lossy[a]) < 1e-4 * lossy[a] + 1e-9,
                        "loss", "%s mode %d %s expected %s" %
                        (info, m, fi[m], lossy[a]))


def rejected(legume, R):
    base = dict(gmode_inds=[0, 1], numeig=2, verbose=False, compute_im=False)
    k = np.array([[.9], [0.]])

    def must(name, phc, tr="abs", **kw):
        g = legume.GuidedModeExp(phc, gmax=1.2, truncate_g=tr)
        R.state(name)
        R.step()
        args = dict(base, kpoints=k.copy(), **kw)
        try:
            g.run(**args)
            R.fail("accepted: " + name.split(" #")[0], str(kw))
        except ValueError:
            R.trace()
            R.outcome(name)

    for st in ST:
        for lat in ANG:
            phc = build(legume, lat, st, 0)
            for kz in ("odd", "even", "both"):
                must("no angles", phc, kz_symmetry=kz)
                must("eigsh", phc, kz_symmetry=kz, eig_solver="eigsh",
                     angles=np.array([0]))
                must("angle not a symmetry of the lattice", phc,
                     kz_symmetry=kz, angles=np.array([20.]))
                if st != "thin":
                    bad = build(legume, lat, st, 0, off=25.)
                    must("structure without the mirror", bad, kz_symmetry=kz,
                         angles=np.array([0]))
                # k not in the mirror plane of the given angle
                must("wavevector outside the mirror", phc, kz_symmetry=kz,
                     angles=np.array([90]))
            must("unknown symmetry", phc, kz_symmetry="left",
                 angles=np.array([0]))
    obl = legume.Lattice([1.1, 0.], [.4, 1.2])
    phc = legume.PhotCryst(obl)
    phc.add_layer(.3, 12.)
    for kz in ("odd", "even", "both"):
        must("oblique lattice", phc, kz_symmetry=kz, angles=np.array([0]))
