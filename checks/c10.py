"""C10: radiative losses against an independent golden-rule calculation."""
import itertools
import numpy as np
from vk import gmeref, structs
from vk.stacks import S

PROPERTY = "C10"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "channels within 1e-4 (relative) of grazing emission are skipped: the "
    "density of states diverges there",
    "degenerate modes are compared through the channel-space projector of the "
    "whole degenerate set (its basis is arbitrary)",
]
BOUNDS = {
    "quick": "3 lattices x 10 stacks x abs/tbt x average/background x 3 lists "
             "of guided modes, 4 k-points per run, 6 modes each; every ordered "
             "subset request of two modes",
    "thorough": "7 lattices, 7 k-points, 2 cutoffs, 5 lists, 10 modes",
}
KP = [(0., 0.), (.7, .4), (.05, 0.), (-2.2, 1.9), (np.pi, 0.), (0., -1.2),
      (5.1, -7.3)]
LISTS = [[0], [1], [0, 1, 2, 3], [0, 3], [1, 2]]


def cases(tier):
    th = tier == "thorough"
    out = []
    for lat in (list(structs.LATTICES) if th
                else ["square", "hexagonal", "oblique"]):
        for st in S:
            for tr in ("abs", "tbt"):
                for gmax in ((1.2, 2.1) if th else (1.2, )):
                    for eff in ("average", "background"):
                        for li in range(5 if th else 3):
                            out.append(dict(lat=lat, stack=st, tr=tr,
                                            gmax=gmax, eff=eff, li=li,
                                            nk=7 if th else 4,
                                            ne=10 if th else 6))
    return out


def run_case(case, R):
    import legume
    lat = structs.lattice(legume, case["lat"])
    stack = S[case["stack"]]
    phc = structs.build_phc(legume, lat, stack)
    area = abs(lat.a1[0] * lat.a2[1] - lat.a1[1] * lat.a2[0])
    eff = gmeref.eff_eps(stack, area, case["eff"])
    if max(eff[1:-1]) <= max(eff[0], eff[-1]):
        R.count("no guided modes")
        return
    gme = legume.GuidedModeExp(phc, gmax=case["gmax"], truncate_g=case["tr"])
    try:
        gme.compute_rad(0, [0])
        R.fail("compute_rad before run accepted", "")
    except RuntimeError:
        pass
    try:
        gme.run_im()
        R.fail("run_im before run accepted", "")
    except RuntimeError:
        pass
    inds = LISTS[case["li"]]
    d = [l[0] for l in stack["layers"]]
    gvec = np.array(gme.gvec)
    _, eta = gmeref.eta_matrices(structs.stack_layers(stack), area, gvec)
    kps, bases = [], []
    for k in KP[:case["nk"]]:
        B = gmeref.Basis(gvec, k, eff, d, inds)
        if B.near_cutoff or B.mismatch > 1e-7 or len(B.fn) == 0:
            R.count("skipped k (near cutoff / ill conditioned / no modes)")
            continue
        kps.append(k)
        bases.append(B)
    if not kps:
        return
    ne = min([case["ne"]] + [len(B.fn) for B in bases])
    kp = np.array(kps).T.copy()
    gme.run(kpoints=kp, gmode_inds=inds, numeig=ne, verbose=False,
            eps_eff=case["eff"], compute_im=True)
    R.step()
    fim = np.array(gme.freqs_im)
    unb = np.array(gme.unbalance_sp)
    fr = np.array(gme.freqs)
    if not R.check(fim.shape == fr.shape == unb.shape == (len(kps), ne),
                   "shape", "%s %s %s" % (fim.shape, fr.shape, unb.shape)):
        return
    for ik, B in enumerate(bases):
        M = B.matrix(eta)
        w2, V = np.linalg.eigh(M)
        order = np.argsort(np.abs(w2))
        w = np.sqrt(np.abs(w2[order]))
        V = V[:, order]
        one_k(R, gme, case, ik, B, eta, w, V, ne)
        # every ordered request of one or two modes gives the same numbers
        for ms in [[m] for m in range(ne)] + \
                [list(x) for x in itertools.product(range(min(ne, 3)),
                                                    repeat=2)] + \
                [list(range(ne))[::-1]]:
            a = gme.compute_rad(ik, ms)
            b = gme.compute_rad_sp(ik, ms)
            R.step(2)
            R.trace()
            ok = np.allclose(a[0], fim[ik, ms], rtol=1e-12, atol=1e-300) and \
                np.allclose(b[0], fim[ik, ms], rtol=1e-12, atol=1e-300)
            R.check(ok, "on-demand loss differs", "%s" % ms)
            for cl in "lu":
                for j, m in enumerate(ms):
                    R.check(np.array_equal(a[2][cl][j],
                                           gme.rad_gvec[cl][ik][m]),
                            "on-demand gvec differs", "%s" % ms)
                    for p in ("te", "tm"):
                        x = gme.rad_coup[cl + "_" + p][ik][m]
                        R.check(np.array_equal(a[1][cl + "_" + p][j], x) and
                                np.array_equal(b[3][cl + "_" + p][j], x),
                                "on-demand coupling differs", "%s" % ms)
            rte, rtm = np.array(b[1]), np.array(b[2])
            R.check(np.all(rte >= 0) and np.all(rtm >= 0), "negative part", "")
            for j, m in enumerate(ms):
                t = rte[j] + rtm[j]
                want = .5 if fim[ik, m] < 1e-15 else rte[j] / (t + 1e-15)
                R.check(abs(unb[ik, m] - want) < 1e-9, "unbalance",
                        "%s vs %s" % (unb[ik, m], want))
    for bad in ([ne], [0, ne + 3]):
        try:
            gme.compute_rad(0, bad)
            R.fail("mode index out of range accepted", str(bad))
        except ValueError:
            pass


def one_k(R, gme, case, ik, B, eta, w, V, ne):
    f = 2 * np.pi * np.array(gme.freqs[ik])
    fim = np.array(gme.freqs_im[ik])
    R.check(np.all(fim >= 0) and np.all(np.isfinite(fim)),
            "negative or non-finite loss", str(fim))
    i = 0
    while i < ne:
        j = i + 1
        while j < len(w) and w[j] - w[j - 1] < 1e-5:
            j += 1
        lo, hi = i, j
        i = j
        if w[lo] < 1e-2 or hi > ne:
            R.count("skipped zero mode / cut degenerate set")
            continue
        om = float(f[lo])
        R.state((case["lat"], case["stack"], case["tr"], case["eff"],
                 case["li"], ik, lo))
        if abs(om**2 - w[lo]**2) > 1e-6:
            R.fail("frequency", "%s vs %s" % (om, w[lo]))
            continue
        ref, got, tot = [], [], np.zeros(hi - lo)
        graz = False
        for cl, name in ((0, "l"), (1, "u")):
            e_c = B.eps[0] if cl == 0 else B.eps[-1]
            x = np.abs(e_c * om**2 - B.g**2) / om**2
            graz |= bool(np.any(x < 2e-4))
        if graz:
            R.count("skipped grazing")
            continue
        for cl, name in ((0, "l"), (1, "u")):
            c, ch = gmeref.couplings(B, eta, V[:, lo:hi], om, cl)
            gv = [gme.rad_gvec[name][ik][m] for m in range(lo, hi)]
            same = all(g.shape[1] == len(ch) and
                       np.allclose(g, B.gvec[:, ch], atol=1e-9) for g in gv)
            if not R.check(same, "open channels", "%s: %s expected %s" %
                           (name, [g.shape for g in gv], len(ch))):
                return
            for ip, p in enumerate(("te", "tm")):
                ref.append(c[:, ip, :])
                got.append(np.array([gme.rad_coup[name + "_" + p][ik][m]
                                     for m in range(lo, hi)]).T.reshape(
                                         len(ch), hi - lo))
        ref, got = np.concatenate(ref), np.concatenate(got)
        R.trace()
        R.outcome((len(ref), round(float(np.sum(np.abs(ref)**2)), 6)))
        if len(ref) == 0:
            R.check(np.all(fim[lo:hi] == 0), "loss without open channel",
                    str(fim[lo:hi]))
            continue
        # reported couplings add up to the loss
        for m in range(lo, hi):
            t = float(np.sum(np.abs(got[:, m - lo])**2))
            want = np.sqrt(complex(f[m]**2, t)).imag / 2 / np.pi
            R.check(abs(fim[m] - want) <= 1e-10 * (want + 1e-6),
                    "couplings do not add up to the loss", "%s vs %s" %
                    (fim[m], want))
        A, C = ref @ ref.conj().T, got @ got.conj().T
        err = np.max(np.abs(A - C))
        R.check(err < 2e-5 * np.max(np.abs(A)) + 1e-8, "couplings",
                "modes %d..%d of k %d: difference %.2e of %.2e" %
                (lo, hi - 1, ik, err, np.max(np.abs(A))))
