"""C06: GME frequencies against the reference projection."""
import itertools
import numpy as np
from vk import gmeref, structs
from vk.stacks import S

PROPERTY = "C06"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "layer thicknesses, permittivities and shapes come from the alphabet",
    "k-points where a basis mode is within 1e-8 of cutoff or two guided modes "
    "are closer than the search step are counted and skipped",
]
SUB4 = [list(c) for r in range(1, 5)
        for c in itertools.combinations(range(4), r)]
BOUNDS = {
    "quick": "4 lattices x 10 stacks x 5 k-points (one barely off a symmetry "
             "line) x abs/tbt x average/background/custom x all non-empty "
             "subsets of guided modes 0..3 plus reordered lists and lists "
             "with modes above cutoff; every ordered pair of 6 wavevectors "
             "in one run x 5 lists",
    "thorough": "7 lattices x 10 stacks x 8 k-points x 2 cutoffs, same lists",
}
KP = [(0., 0.), (.7, .4), (np.pi, 0.), (-2.2, 1.9), (3e-4, .7), (5.1, -7.3), (0., 2.),
      (np.pi, np.pi)]


def cases(tier):
    th = tier == "thorough"
    out = []
    for lat in (list(structs.LATTICES) if th
                else ["square", "hexagonal", "oblique", "left"]):
        for st in S:
            for tr in ("abs", "tbt"):
                for gmax in ((1.2, 1.6) if th else (1.2, )):
                    for eff in ("average", "background", "custom"):
                        for ik in range(8 if th else 2 if lat == "left" else
                                        5):
                            out.append(dict(lat=lat, stack=st, tr=tr,
                                            gmax=gmax, eff=eff, ik=ik))
    for lat in ("square", "hexagonal"):
        for st in S:
            for tr in ("abs", "tbt"):
                for ik in (0, 1, 3):
                    out.append(dict(lat=lat, stack=st, tr=tr, gmax=.5,
                                    eff="average", ik=ik))
    # a cutoff exactly on a shell of reciprocal lattice vectors
    for st in S:
        for ik, gmax in ((0, 1.), (1, 1.), (3, 1.)) + (((1, 2.), ) if th
                                                       else ()):
            out.append(dict(lat="square", stack=st, tr="abs", gmax=gmax,
                            eff="average", ik=ik))
    # several wavevectors in one run
    for lat in (list(structs.LATTICES) if th else ["hexagonal", "oblique"]):
        for st in S:
            for tr in ("abs", "tbt"):
                out.append(dict(lat=lat, stack=st, tr=tr, gmax=.7 if th else
                                .6, eff="average", ik=-1))
    return out


def many(case, R, legume):
    """Every ordered pair of wavevectors (and all of them) in one run."""
    lat = structs.lattice(legume, case["lat"])
    stack = S[case["stack"]]
    phc = structs.build_phc(legume, lat, stack)
    area = abs(lat.a1[0] * lat.a2[1] - lat.a1[1] * lat.a2[0])
    eff = gmeref.eff_eps(stack, area, "average")
    gme = legume.GuidedModeExp(phc, gmax=case["gmax"], truncate_g=case["tr"])
    if not max(eff[1:-1]) > max(eff[0], eff[-1]):
        return
    gv = np.array(gme.gvec)
    _, eta = gmeref.eta_matrices(structs.stack_layers(stack), area, gv)
    ref = []
    for k in KP[:6]:
        b = gmeref.Basis(gv, np.array(k), eff, [l[0] for l in stack["layers"]],
                         range(10))
        if b.near_cutoff or b.mismatch > 1e-7:
            R.count("skipped (near cutoff / ill conditioned)")
            continue
        ref.append((np.array(k), b, b.matrix(eta) if len(b.fn)
                    else np.zeros((0, 0))))
    ids = range(len(ref))
    for inds in ([0, 1], [0, 9], [2, 1, 7], [1], [3, 0]):
        w = []
        for k, b, M in ref:
            sel = np.isin(b.mode, inds)
            w.append(np.sort(np.sqrt(np.abs(np.linalg.eigvalsh(
                M[np.ix_(sel, sel)])))) / 2 / np.pi if sel.any()
                else np.zeros(0))
        for idx in list(itertools.product(ids, repeat=2)) + \
                [tuple(ids), tuple(ids)[::-1]]:
            R.state((case["lat"], case["stack"], case["tr"], tuple(inds), idx))
            ks = np.array([ref[i][0] for i in idx]).T
            ne = min([len(w[i]) for i in idx] + [6])
            R.step()
            kw = dict(gmode_inds=inds, numeig=max(ne, 1), compute_im=False,
                      verbose=False)
            try:
                gme.run(kpoints=ks.copy(), **kw)
                err = None
            except (RuntimeError, ValueError) as e:
                err = e
            R.trace()
            info = "%s k=%s" % (inds, ks.T.tolist())
            if ne == 0:
                R.outcome("refused")
                R.check(isinstance(err, RuntimeError),
                        "no guided modes but no error", info)
                continue
            if not R.check(err is None, "several k: error",
                           "%s %r" % (info, err)):
                continue
            f = np.array(gme.freqs)
            want = np.array([w[i][:ne] for i in idx])
            R.outcome(tuple(np.round(want[-1], 5)))
            R.check(f.shape == want.shape and
                    np.max(np.abs(f**2 - want**2)) < 1e-7,
                    "several k: frequencies", "%s: got %s expected %s" %
                    (info, f, want))
            R.check(list(gme.N_basis) == [len(w[i]) for i in idx],
                    "several k: basis size", "%s %s" % (info, gme.N_basis))


def run_case(case, R):
    import legume
    if case["ik"] < 0:
        return many(case, R, legume)
    lat = structs.lattice(legume, case["lat"])
    stack = S[case["stack"]]
    phc = structs.build_phc(legume, lat, stack)
    area = abs(lat.a1[0] * lat.a2[1] - lat.a1[1] * lat.a2[0])
    k = np.array(KP[case["ik"]])
    if case["eff"] == "custom":
        ref_eff = [e * 1.1 + .05 * i for i, e in
                   enumerate(gmeref.eff_eps(stack, area, "average"))]
        for l, e in zip([phc.claddings[0]] + phc.layers + [phc.claddings[1]],
                        ref_eff):
            l.eps_eff = e
    else:
        ref_eff = gmeref.eff_eps(stack, area, case["eff"])
    gme = legume.GuidedModeExp(phc, gmax=case["gmax"], truncate_g=case["tr"])
    d = [l[0] for l in stack["layers"]]
    _, eta = gmeref.eta_matrices(structs.stack_layers(stack), area,
                                 np.array(gme.gvec))
    guiding = max(ref_eff[1:-1]) > max(ref_eff[0], ref_eff[-1])
    lists = [[0, 1, 2, 3, 4, 5]] + SUB4
    if case["ik"] in (0, 1):
        lists += [[1, 0], [3, 2, 0], [2, 1], [0, 9], [8, 9], [1, 0, 9]]
    full = gmeref.Basis(np.array(gme.gvec), k, ref_eff, d, range(10)) \
        if guiding else None
    if full is not None and (full.near_cutoff or full.mismatch > 1e-7):
        R.count("skipped (near cutoff / ill conditioned)")
        return
    M = full.matrix(eta) if guiding and len(full.fn) else np.zeros((0, 0))
    for inds in lists:
        R.state((case["lat"], case["stack"], case["tr"], case["eff"],
                 case["gmax"], case["ik"], tuple(inds)))
        sel = np.isin(full.mode, inds) if guiding else np.zeros(0, bool)
        n = int(sel.sum())
        ne = min(n, 8) if n else 3
        R.step()
        kw = dict(gmode_inds=inds, numeig=ne, compute_im=False,
                  verbose=False, eps_eff=case["eff"])
        if n == 0:
            try:
                gme.run(kpoints=k[:, None].copy(), **kw)
                R.fail("no guided modes but no error", str(inds))
            except RuntimeError:
                R.outcome("no guided modes")
            R.trace()
            continue
        gme.run(kpoints=k[:, None].copy(), **kw)
        w2 = np.linalg.eigvalsh(M[np.ix_(sel, sel)])
        ref = np.sort(np.sqrt(np.abs(w2)))[:ne] / 2 / np.pi
        f = np.array(gme.freqs)
        R.trace()
        R.outcome(tuple(np.round(ref, 5)))
        if not R.check(f.shape == (1, ne), "shape", str(f.shape)):
            continue
        err = np.max(np.abs(f[0]**2 - ref**2))
        R.check(err < 1e-7, "frequencies", "%s: got %s expected %s" %
                (inds, f[0], ref))
        R.check(gme.N_basis[-1] == n, "basis size", "%s: %s vs %s" %
                (inds, gme.N_basis[-1], n))
        if not stack_has_shapes(stack) and case["eff"] != "custom":
            R.check(np.max(np.abs(np.sort(full.om[sel])[:ne] / 2 / np.pi -
                                  f[0])) < 1e-7, "folded guided modes",
                    "%s: %s" % (inds, f[0]))
    # more modes than the basis holds must be rejected
    if guiding and len(full.fn):
        try:
            gme.run(kpoints=k[:, None].copy(), gmode_inds=[0],
                    numeig=len(gme.gvec[0]) + 1, compute_im=False,
                    verbose=False, eps_eff=case["eff"])
            R.fail("numeig too large accepted", "")
        except (ValueError, RuntimeError):
            pass


def stack_has_shapes(stack):
    return any(l[1] for l in structs.stack_layers(stack))
