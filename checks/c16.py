"""C16: polaritons against an independently assembled Hopfield problem."""
import copy
import itertools
import numpy as np
import scipy.constants as sc
from vk import structs
from vk.stacks import S

PROPERTY = "C16"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "the photonic modes/fields and the exciton states themselves are decided by "
    "C06/C10/C11/C15; here fresh solver objects provide them to the reference",
    "documented selection: all positive energies but the highest are stored",
    "fractions are those of the unit-norm eigenvector (documented definition); "
    "they are compared for eigenvalues separated from all others",
    "transformation tests use structures whose transformed plane-wave sets map "
    "onto each other",
]
BOUNDS = {
    "quick": "4 lattices x 4 stacks x 8 well lists x 2 truncations x 2 "
             "photon/exciton counts x 4 k-points (all energies, losses, "
             "fractions); zero-coupling union; identical-well summation; "
             "translations, supercells and unit changes; rejections",
    "thorough": "adds 2 lattices, 2 stacks, 3 mode counts, cutoff 2.1, 9 k-points",
}
A0 = 2.5e-7
W = {
    "a": dict(V_shapes=.01, M=.2 * sc.m_e, E0=1.5, loss=1e-5,
              osc_str=[4e16, 3e16, 0.]),
    "b": dict(V_shapes=1., M=.15 * sc.m_e, E0=1.7, loss=3e-4,
              osc_str=[1e17, 1e17, 0.]),
    "c": dict(V_shapes=-.02, M=.3 * sc.m_e, E0=1.2, loss=0.,
              osc_str=[0., 2e17, 1e17]),
    "big": dict(V_shapes=.5, M=.2 * sc.m_e, E0=1.4, loss=1e-3,
                osc_str=[4e18, 3e18, 1e18]),
    "lossy": dict(V_shapes=.3, M=.2 * sc.m_e, E0=1.3, loss=.5,
                  osc_str=[2e19, 3e19, 1e19]),
}
# lists of (relative height in the stack of layers, well)
WELLS = {
    "one": [(.5, "a")],
    "low": [(.1, "b")],
    "big": [(.3, "big")],
    "lossy": [(.4, "lossy")],
    "two": [(.25, "b"), (.8, "a")],
    "twor": [(.8, "a"), (.25, "b")],
    "same": [(.6, "b"), (.6, "b")],
    "three": [(.2, "a"), (.45, "c"), (.9, "b")],
}
KP = np.array([(.4, .25), (.01, 0.), (-1.9, 2.3), (0., 0.)]).T
KP2 = np.array([(np.pi, 0.), (.05, 0.), (4., -3.), (1., -.01), (-.3, -.2)]).T


def cases(tier):
    out = []
    th = tier == "thorough"
    lats = ["square", "hexagonal", "rect", "oblique"] + (["skew", "rotated"]
                                                         if th else [])
    sts = ["hole", "two", "asym", "clad"] + (["three", "thick"] if th else [])
    for lat, st, w in itertools.product(lats, sts, WELLS):
        for tr in ("abs", "tbt"):
            out.append(dict(kind="matrix", lat=lat, st=st, wells=w, tr=tr,
                            th=th))
    for lat, st in itertools.product(lats, sts):
        out.append(dict(kind="union", lat=lat, st=st, th=th))
        out.append(dict(kind="same", lat=lat, st=st, th=th))
    for lat, st in itertools.product(lats, ("asym", "two", "hole")):
        for tf in ("translate", "super1", "super2", "unit2", "unit.4",
                   "order", "split"):
            out.append(dict(kind="transform", lat=lat, st=st, tf=tf, th=th))
    out.append(dict(kind="reject"))
    out.append(dict(kind="history", depth=3 if th else 2))
    return out


def height(stack):
    return sum(l[0] for l in stack["layers"])


def build(legume, lat, st, wells, osc=1., a=A0, s=1., shift=(0., 0.),
          copies=((0., 0.), ), split=False, order=None):
    """The stack scaled by s, shapes moved by shift and repeated at copies."""
    stack = S[st]
    phc = legume.PhotCryst(lat, eps_l=stack["l"][0], eps_u=stack["u"][0])

    def shapes(lst, **kw):
        for n, e in lst:
            kind, p = structs.SHAPES[n]
            for cx, cy in copies:
                dx, dy = shift[0] + cx, shift[1] + cy
                if kind == "poly":
                    sh = legume.Poly(eps=e, x_edges=list(s * (p[:, 0] + dx)),
                                     y_edges=list(s * (p[:, 1] + dy)))
                else:
                    q = dict(p)
                    q["x_cent"], q["y_cent"] = s * (q["x_cent"] + dx), s * (
                        q["y_cent"] + dy)
                    for r in ("r", "rx", "ry"):
                        if r in q:
                            q[r] *= s
                    sh = (legume.Circle if kind == "circle" else legume.Ellipse
                          )(eps=e, **q)
                phc.add_shape(sh, **kw)

    for d, e, sh in stack["layers"]:
        for f in ((.5, .5) if split else (1., )):
            phc.add_layer(d=d * s * f, eps_b=e)
            shapes(sh)
    shapes(stack["l"][1], cladding=0)
    shapes(stack["u"][1], cladding=1)
    ws = [(z, dict(W[n])) for z, n in WELLS[wells]]
    if order:
        ws = [ws[i] for i in order]
    for z, w in ws:
        w["osc_str"] = [osc * x for x in w["osc_str"]]
        phc.add_qw(z=z * height(stack) * s, a=a, **w)
    return phc


def gme_opts(ne, inds=(0, 1, 3)):
    return dict(gmode_inds=list(inds), numeig=ne, verbose=False,
                gmode_tol=1e-14, gmode_step=5e-3)


def reference(legume, phc, gmax, tr, go, eo, kps, a=A0):
    """Assemble the Hopfield problem from fresh photon / exciton solvers."""
    g = legume.GuidedModeExp(phc, gmax=gmax, truncate_g=tr)
    g.run(kpoints=kps.copy(), **dict(go, compute_im=True))
    ex = []
    for q in phc.qws:
        e = legume.ExcitonSchroedEq(phc, z=q.z, V_shapes=q.V_shapes, a=q.a,
                                    M=q.M, E0=q.E0, loss=q.loss,
                                    osc_str=list(np.array(q.osc_str)),
                                    gmax=gmax, truncate_g=tr)
        e.run(kpoints=kps.copy(), **eo)
        ex.append(e)
    lat = phc.lattice
    area = abs(lat.a1[0] * lat.a2[1] - lat.a1[1] * lat.a2[0])
    conv = sc.h * sc.c / sc.e / a
    out = []
    for ik in range(kps.shape[1]):
        Eph = conv * (np.array(g.freqs)[ik] + 1j * np.array(g.freqs_im)[ik])
        N = len(Eph)
        Cs, Ex = [], []
        for e, q in zip(ex, phc.qws):
            En = np.array(e.eners)[ik]
            Wf = np.array(e.eigvecs)[ik]              # (G, nu)
            F = np.zeros((N, len(En)), dtype=complex)
            o = np.sqrt(np.array(q.osc_str, dtype=float))
            for n in range(N):
                if Eph[n].real < 1e-6 * conv:
                    continue      # a static mode has no coupling
                E = np.array(g.ft_field_xy("E", kind=ik, mind=n, z=q.z))
                # overlap over the cell of the field with every exciton state,
                # whose wavefunction is normalised over the cell
                F[n] = np.sqrt(area) * ((o @ E) @ Wf.conj())
            Cs.append(np.sqrt(sc.hbar**2 / (4 * sc.m_e * sc.epsilon_0 * a)) * F)
            Ex.append(En)
        C = -1j * np.hstack(Cs)
        X = np.concatenate(Ex)
        D = C @ np.diag(1 / np.real(X)) @ C.conj().T
        P = np.diag(Eph) + 2 * D
        XX = np.diag(X)
        Z = 0 * XX
        Cd = C.conj().T
        Mx = np.block([[P, -1j * C, -2 * D, -1j * C],
                       [1j * Cd, XX, -1j * Cd, Z],
                       [2 * D, -1j * C, -P, -1j * C],
                       [-1j * Cd, Z, 1j * Cd, -XX]])
        w, v = np.linalg.eig(Mx)
        pos = np.argsort(w.real)[len(w) // 2:]
        w, v = w[pos], v[:, pos]
        nx = len(X)
        ph = np.sum(np.abs(v[:N])**2, 0) + np.sum(
            np.abs(v[N + nx:2 * N + nx])**2, 0)
        out.append((w[:-1], (ph / np.sum(np.abs(v)**2, 0))[:-1], Eph, X))
    return out


def close(got, want, tol):
    """Two spectra (real parts ascending) agree as sets of complex values."""
    got, want = list(np.ravel(got)), list(np.ravel(want))
    if len(got) != len(want):
        return False
    for x in want:
        i = int(np.argmin([abs(x - y) for y in got]))
        # (static modes: square root of rounding noise)
        if abs(x - got[i]) > (tol if x.real > 1e-6 else 1e-6):
            return False
        got.pop(i)
    return True


def check_run(R, legume, phc, gmax, tr, go, eo, kps, info, a=A0, ref=True):
    pol = legume.HopfieldPol(phc, gmax, truncate_g=tr)
    for p in ("eners", "eners_im", "eigvecs", "fractions_ex", "fractions_ph",
              "kpoints"):
        try:
            R.check(len(getattr(pol, p)) == 0, "results before run", p)
        except AttributeError as x:
            R.fail("property before run", "%s: %s" % (p, x))
    g1, e1 = copy.deepcopy(go), copy.deepcopy(eo)
    kp = kps.copy()
    pol.run(kpoints=kp, gme_options=g1, exc_options=e1, verbose=False)
    R.step(2)
    R.check(g1 == go and e1 == eo and np.array_equal(kp, kps),
            "caller's options modified", "%s: %s %s" % (info, list(g1), list(e1)))
    R.check("HopfieldPol" in repr(pol), "repr", "")
    R.check(np.array_equal(pol.kpoints, kps), "kpoints", info)
    E, I = np.array(pol.eners), np.array(pol.eners_im)
    fx, fp = np.array(pol.fractions_ex), np.array(pol.fractions_ph)
    R.check(E.shape == I.shape == fx.shape == fp.shape and
            E.shape[0] == kps.shape[1], "shapes", info)
    R.check(np.all(np.diff(E, axis=1) >= -1e-9) and np.all(E >= -1e-12),
            "energies sorted and positive", info)
    R.check(np.all(I > -1e-9), "negative loss", "%s %g" % (info, I.min()))
    R.check(np.max(np.abs(fx + fp - 1)) < 1e-9 and np.all(fx > -1e-12) and
            np.all(fp > -1e-12), "fractions", info)
    V = np.array(pol.eigvecs)
    R.check(V.shape[0] == E.shape[0] and V.shape[2] == E.shape[1],
            "eigvecs shape", "%s %s" % (info, V.shape))
    r = pol.mat @ V[-1] - V[-1] * (E[-1] + 1j * I[-1])
    R.check(np.max(np.abs(r)) < 1e-8, "eigenvectors", "%s %.1e" % (
        info, np.max(np.abs(r))))
    if ref:
        rf = reference(legume, phc, gmax, tr, go, eo, kps, a)
        for ik, (w, ph, Eph, X) in enumerate(rf):
            R.trace()
            got = E[ik] + 1j * I[ik]
            if not R.check(close(got, w, 1e-8), "polariton energies",
                           "%s k=%d: %s want %s" % (info, ik, got[:5], w[:5])):
                continue
            for j in range(len(w)):
                d = np.abs(w - w[j])
                d[j] = 1
                # eigenvalues near the cut may be close to the dropped one
                if d.min() > 1e-5 and j < len(w) - 1 and w[j].real > 1e-5:
                    i = int(np.argmin(np.abs(got - w[j])))
                    R.check(abs(fp[ik, i] - ph[j]) < 1e-6, "photonic fraction",
                            "%s k=%d mode %d: %g want %g" % (
                                info, ik, j, fp[ik, i], ph[j]))
            R.outcome(tuple(np.round(w[:3].real, 6)))
    return pol, E, I, fp


def counts(th):
    return ((3, 1), (5, 4), (2, 6)) if th else ((3, 2), (5, 4))


def run_case(case, R):
    import legume
    if case["kind"] == "reject":
        return reject(R)
    if case["kind"] == "history":
        return history(case, R)
    lat = structs.lattice(legume, case["lat"])
    th = case["th"]
    kps = np.hstack((KP, KP2)) if th else KP
    if case["kind"] == "matrix":
        for gmax in ((1.2, 2.1) if th else (1.2, )):
            for ne, nx in counts(th):
                R.state((case["lat"], case["st"], case["wells"], case["tr"],
                         gmax, ne, nx))
                phc = build(legume, lat, case["st"], case["wells"])
                check_run(R, legume, phc, gmax, case["tr"], gme_opts(ne),
                          dict(numeig_ex=nx, verbose_ex=False), kps,
                          "%s gmax=%g ne=%d,%d" % (case, gmax, ne, nx))
        # any option of the photonic run
        for o in (dict(compute_im=False), dict(gradients="approx"),
                  dict(eig_solver="eigsh"), dict(eig_sigma=.35),
                  dict(eps_eff="background"), dict(gmode_inds=[2, 0])):
            if case["wells"] != "one" or case["st"] == "rod":
                break
            R.state((case["lat"], case["st"], case["tr"], str(o)))
            check_run(R, legume, build(legume, lat, case["st"], "one"), 1.2,
                      case["tr"], dict(gme_opts(3), **o),
                      dict(numeig_ex=2, verbose_ex=False), kps[:, 1:],
                      "%s %s" % (case, o))
        # more states requested than exist
        if case["wells"] == "one" and case["st"] == "asym":
            phc = build(legume, lat, "asym", "one")
            for ne, nx in ((2, 100), ):
                try:
                    check_run(R, legume, phc, 1.01, case["tr"], gme_opts(ne),
                              dict(numeig_ex=nx, verbose_ex=False), kps[:, :1],
                              "%s all states" % case)
                except (IndexError, TypeError) as x:
                    R.fail("more states requested than exist", repr(x))
        return
    if case["kind"] == "union":
        for w, tr, (ne, nx) in itertools.product(
                ("one", "two", "three", "same"), ("abs", "tbt"), counts(th)):
            R.state((case["lat"], case["st"], w, tr, ne, nx))
            phc = build(legume, lat, case["st"], w, osc=0.)
            go, eo = gme_opts(ne), dict(numeig_ex=nx, verbose_ex=False)
            info = "%s %s %s" % (case, w, tr)
            pol, E, I, fp = check_run(R, legume, phc, 1.2, tr, go, eo, kps,
                                      info, ref=False)
            rf = reference(legume, phc, 1.2, tr, go, eo, kps)
            for ik, (_, _, Eph, X) in enumerate(rf):
                R.trace()
                u = np.concatenate((Eph, X))
                u = u[np.argsort(u.real)][:-1]
                R.check(close(E[ik] + 1j * I[ik], u, 1e-8),
                        "union without oscillator strength",
                        "%s k=%d %s want %s" % (info, ik, E[ik][:4], u[:4]))
                # pure states
                f = fp[ik]
                R.outcome(tuple(np.round(f)))
        return
    if case["kind"] == "same":
        # n identical wells = one well with n-fold strength + dark states
        for tr, (ne, nx), n in itertools.product(("abs", "tbt"), counts(th),
                                                 (2, 3)):
            R.state((case["lat"], case["st"], "n wells", n, tr, ne))
            go, eo = gme_opts(ne), dict(numeig_ex=nx, verbose_ex=False)
            one = build(legume, lat, case["st"], "big", osc=n)
            many = build(legume, lat, case["st"], "big")
            for _ in range(n - 1):
                q = many.qws[0]
                many.add_qw(z=q.z, a=q.a, V_shapes=q.V_shapes, M=q.M, E0=q.E0,
                            loss=q.loss, osc_str=q.osc_str)
            info = "%s %s n=%d" % (case, tr, n)
            _, E1, I1, _ = check_run(R, legume, one, 1.2, tr, go, eo, kps, info,
                                     ref=False)
            _, E2, I2, _ = check_run(R, legume, many, 1.2, tr, go, eo, kps,
                                     info, ref=False)
            rf = reference(legume, one, 1.2, tr, go, eo, kps)
            for ik, (w, _, Eph, X) in enumerate(rf):
                R.trace()
                want = list(E1[ik] + 1j * I1[ik]) + (n - 1) * list(X)
                got = list(E2[ik] + 1j * I2[ik])
                # the highest one is dropped in each: compare below both cuts
                cut = min(E1[ik].max(), E2[ik].max()) - 1e-6
                R.check(close([x for x in got if x.real < cut],
                              [x for x in want if x.real < cut], 1e-7),
                        "identical wells", "%s k=%d: %s want %s" % (
                            info, ik, np.sort(got)[:6], np.sort(want)[:6]))
        return
    transform(case, R, legume, lat, kps)


def safe_counts(legume, phc, tr, kps, inds, ne=6, nx=5):
    """Largest counts that do not cut through a (nearly) degenerate level."""
    g = legume.GuidedModeExp(phc, gmax=1.2, truncate_g=tr)
    g.run(kpoints=kps.copy(), compute_im=False, **gme_opts(ne + 1, inds))
    F = np.array(g.freqs)
    while ne > 1 and np.min(F[:, ne] - F[:, ne - 1]) < 1e-5:
        ne -= 1
    X = []
    for q in phc.qws:
        e = legume.ExcitonSchroedEq(phc, z=q.z, V_shapes=q.V_shapes, a=q.a,
                                    M=q.M, E0=q.E0, loss=q.loss,
                                    osc_str=q.osc_str, gmax=1.2, truncate_g=tr)
        e.run(kpoints=kps.copy(), numeig_ex=nx + 1, verbose_ex=False)
        X.append(np.array(e.eners).real)
    X = np.vstack(X)
    nx = min(nx, X.shape[1])
    while nx > 1 and nx < X.shape[1] and \
            np.min(X[:, nx] - X[:, nx - 1]) < 1e-5:
        nx -= 1
    return ne, nx


def transform(case, R, legume, lat, kps):
    tf = case["tf"]
    for wells, tr in itertools.product(("big", "three"), ("abs", "tbt")):
        inds = (0, 1)
        info = "%s %s %s" % (case, wells, tr)
        R.state((case["lat"], case["st"], tf, wells, tr))
        b = dict(legume=legume, st=case["st"], wells=wells)
        gmax = 1.2
        if tf.startswith("super"):
            if tr == "abs" or case["st"] == "two":
                continue
            i = int(tf[5]) - 1
            A = [np.array(lat.a1), np.array(lat.a2)]
            A2 = list(A)
            A2[i] = 2 * A2[i]
            big = legume.Lattice(list(A2[0]), list(A2[1]))
            gmax = 1.2 * max(np.linalg.norm(lat.b1), np.linalg.norm(lat.b2)) / (
                2 * np.pi)
            probe = legume.GuidedModeExp(build(lat=lat, **b), gmax=gmax,
                                         truncate_g=tr)
            nG = probe.gvec.shape[1]
            pb = legume.GuidedModeExp(build(lat=big, **b), gmax=gmax,
                                      truncate_g=tr)
            NG = pb.gvec.shape[1]
            # every state, so that the small spectrum is part of the large one
            g1, g2 = gme_opts(nG, (0, )), gme_opts(NG, (0, ))
            e1 = dict(numeig_ex=nG, verbose_ex=False)
            e2 = dict(numeig_ex=NG, verbose_ex=False)
            k1 = np.array([[.4], [.25]])
            P1 = build(lat=lat, **b)
            P2 = build(lat=big, copies=((0., 0.), tuple(A[i])), **b)
            _, E, I, _ = check_run(R, legume, P1, gmax, tr, g1, e1, k1, info,
                                   ref=False)
            _, F, J, _ = check_run(R, legume, P2, gmax, tr, g2, e2, k1, info,
                                   ref=False)
            w, v = list(E[0] + 1j * I[0]), list(F[0] + 1j * J[0])
            R.trace()
            bad = []
            for x in w:
                if x.real > F[0].max() - 1e-6:
                    continue
                j = int(np.argmin(np.abs(np.array(v) - x)))
                if abs(v[j] - x) > 1e-7:
                    bad.append((x, v[j]))
                else:
                    v.pop(j)
            R.check(not bad, "supercell", "%s: %d states missing %s" % (
                info, len(bad), bad[:3]))
            R.outcome((tf, round(float(E[0, 0]), 6)))
            continue
        P1 = build(lat=lat, **b)
        ne, nx = safe_counts(legume, P1, tr, kps, inds)
        go, eo = gme_opts(ne, inds), dict(numeig_ex=nx, verbose_ex=False)
        a2, k2 = A0, kps
        if tf == "translate":
            P2 = build(lat=lat, shift=(.137, -.211), **b)
        elif tf.startswith("unit"):
            s = float(tf[4:])
            l2 = legume.Lattice(list(s * np.array(lat.a1)),
                                list(s * np.array(lat.a2)))
            a2 = A0 / s
            P2 = build(lat=l2, s=s, a=a2, **b)
            k2 = kps / s
        elif tf == "order":
            P2 = build(lat=lat, order=list(range(len(WELLS[wells])))[::-1], **b)
        elif tf == "split":
            P2 = build(lat=lat, split=True, **b)
        _, E, I, f = check_run(R, legume, P1, gmax, tr, go, eo, kps, info,
                               ref=False)
        _, F, J, h = check_run(R, legume, P2, gmax / (s if tf.startswith("unit")
                                                      else 1.), tr, go, eo, k2,
                               info, a=a2, ref=False)
        for ik in range(kps.shape[1]):
            R.trace()
            R.check(close(E[ik] + 1j * I[ik], F[ik] + 1j * J[ik], 2e-7),
                    "symmetry: " + tf.rstrip("0123456789."),
                    "%s k=%d: %s / %s" % (info, ik, E[ik], F[ik]))
        R.outcome((tf, round(float(E[0, 0]), 6)))


def reject(R):
    import legume
    lat = legume.Lattice("square")
    phc = structs.build_phc(legume, lat, S["hole"])
    R.trace(3)
    try:
        legume.HopfieldPol(phc, 1.2)
        R.fail("no wells accepted", "")
    except ValueError:
        R.outcome(1)
    q = W["b"]
    # every place of a well with another lattice constant, every factor
    for n in (2, 3, 4):
        for i in range(n):
            for f in (2., .5, 1.1, .99, 1. + 1e-3, 1. - 1e-5, 1.):
                phc = structs.build_phc(legume, lat, S["hole"])
                for j in range(n):
                    phc.add_qw(z=.05 + .03 * j, a=A0 * (f if j == i else 1.),
                               **q)
                R.state((n, i, f))
                R.step(n + 1)
                R.trace()
                try:
                    legume.HopfieldPol(phc, 1.2)
                    R.check(f == 1., "different lattice constants accepted",
                            "well %d of %d, factor %s" % (i, n, f))
                except ValueError:
                    R.check(f != 1., "equal lattice constants refused",
                            str(n))
                R.outcome(f == 1.)
    phc = build(legume, lat, "hole", "one")
    phc.add_qw(z=.1, a=2 * A0, **q)
    try:
        legume.HopfieldPol(phc, 1.2)
        R.fail("different lattice constants accepted", "")
    except ValueError:
        R.outcome(2)
    phc = build(legume, lat, "hole", "one")
    try:
        legume.HopfieldPol(phc, 1.2, truncate_g="round")
        R.fail("unknown truncation accepted", "")
    except ValueError:
        R.outcome(3)
    for z in (-.1, 0., .25, .3):
        R.state(z)
        R.trace()
        try:
            phc.add_qw(z=z, a=A0, **q)
            R.fail("well in a cladding accepted", str(z))
        except ValueError:
            R.check(len(phc.qws) == 1, "rejected well was added", "")
    R.step(8)


def history(case, R):
    import legume
    lat = legume.Lattice("oblique" and [1.1, 0.], [0.4, 1.2])
    phc = build(legume, lat, "asym", "two")
    RUNS = [
        dict(kpoints=KP[:, :1], gme_options=gme_opts(3),
             exc_options=dict(numeig_ex=2, verbose_ex=False)),
        dict(kpoints=KP[:, [2, 0]], gme_options=gme_opts(4, (0, )),
             exc_options=dict(numeig_ex=3, verbose_ex=False)),
        dict(kpoints=KP[:, [2]], gme_options=gme_opts(2, (1, 2)),
             exc_options=dict(numeig_ex=1, verbose_ex=False)),
    ]

    def go(p, r):
        p.run(verbose=False, **copy.deepcopy(RUNS[r]))
        return [np.array(x) for x in (p.eners, p.eners_im, p.fractions_ex,
                                      p.fractions_ph, p.kpoints)]

    new = lambda: legume.HopfieldPol(phc, 1.2)
    fresh = [go(new(), r) for r in range(len(RUNS))]
    for n in range(1, case["depth"] + 1):
        for seq in itertools.product(range(len(RUNS)), repeat=n):
            p = new()
            for r in seq:
                got = go(p, r)
                R.step()
            R.state(seq)
            R.trace()
            R.check(all(np.shape(x) == np.shape(y) and np.allclose(
                x, y, atol=1e-8) for x, y in zip(got, fresh[seq[-1]])),
                "history", str(seq))
