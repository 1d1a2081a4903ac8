"""C14: every entry of every Jacobian against central differences."""
import itertools
import numpy as np
from vk import structs

PROPERTY = "C14"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "functions of eigenvectors are compared through their phase-invariant "
    "products v_i conj(v_j), for levels that are not degenerate (the "
    "derivative does not exist otherwise); eigenvalues through the sum over "
    "a degenerate cluster",
    "toeplitz_block is differentiated along its documented domain (a common "
    "corner element, first block Hermitian)",
    "square roots are stabilised around 0 (documented): compared for "
    "arguments >= 0.01 and finite at 0",
    "central differences with two steps and Richardson extrapolation; "
    "tolerance 3e-6 relative to the largest derivative of the output plus the "
    "floor 1e-6",
]
BOUNDS = {
    "quick": "12 primitives over every argument of a small alphabet (all index "
             "subsets, block counts, Hermitian matrices with entries of a "
             "5-letter alphabet, positions relative to the nodes); 2D and "
             "slab solvers: every parameter of 9 structures x 6 option sets x "
             "4 outputs (frequencies, losses, couplings, fields)",
    "thorough": "larger primitives, 4 lattices, more structures/options, two "
                "k-points",
}
TOL = 3e-6


# ---------------------------------------------------------------- Jacobians
def num_jac(f, x, h=2e-5):
    """Richardson-extrapolated central differences of a vector function."""
    out = []
    for i in range(x.size):
        d = []
        for s in (h, h / 2):
            e = np.zeros(x.size)
            e[i] = s
            d.append((np.asarray(f(x + e)) - np.asarray(f(x - e))) / (2 * s))
        out.append((4 * d[1] - d[0]) / 3)
    return np.array(out).T


def compare(R, key, f, x, names=None, tol=TOL, h=2e-5, cols=None):
    """every output x every parameter; also value(traced) == value(plain)."""
    import autograd
    from autograd.test_util import check_grads  # noqa: F401 (import check)
    val = np.asarray(f(x))
    vals = []

    def g(p):
        o = f(p)
        vals.append(np.asarray(getattr(o, "_value", o)))
        return o
    J = np.asarray(autograd.jacobian(g)(x)).reshape(val.size, x.size)
    N = num_jac(f, x, h).reshape(val.size, x.size)
    R.step(4 * x.size + 2)
    R.trace(val.size * x.size)
    R.check(vals and np.allclose(vals[-1], val, rtol=1e-12, atol=1e-13),
            key + ":value", "the traced value %s differs from %s" %
            (vals[-1] if vals else None, val))
    if not R.check(np.all(np.isfinite(J)), key + ":finite",
                   "gradient is not finite at %s: %s" % (list(x), J.tolist())):
        return
    scale = np.abs(N).max(axis=1, keepdims=True) + 0.1 * np.abs(val)[:, None]
    bad = np.abs(J - N) > tol * np.maximum(scale, 1e-3) + 1e-8
    if cols is not None:
        bad[:, [c for c in range(x.size) if c not in cols]] = False
    if bad.any():
        o, c = np.argwhere(bad)[0]
        R.fail(key + ":grad:" + (names[c] if names else str(c)),
               "d out[%d] / d %s at %s: gradient %.10g, derivative %.10g" %
               (o, names[c] if names else c, [round(float(v), 4) for v in x],
                J[o, c], N[o, c]))
    R.outcome((key, np.round(J, 5).tobytes()))


# --------------------------------------------------------------- primitives
def flat(npa, *arrs):
    out = []
    for a in arrs:
        a = npa.reshape(a, (-1, ))
        out += [npa.real(a), npa.imag(a)]
    return npa.concatenate(out)


def prim(name, R, tier):
    import autograd.numpy as npa
    from legume.backend import backend as bd
    from legume import primitives as pr
    import scipy.sparse as sp
    big = tier != "quick"
    if name == "extend":
        for shape in [(4, ), (2, 2), (3, 2)]:
            pos = list(itertools.product(*[range(s) for s in shape]))
            for r in range(0, min(len(pos), 3) + 1):
                for p in itertools.permutations(pos, r):
                    if len(shape) == 1:
                        inds = np.array([a[0] for a in p], dtype=int)
                    else:
                        inds = tuple(np.array([a[i] for a in p], dtype=int)
                                     for i in range(len(shape)))
                    if r == 0:
                        continue
                    R.state((shape, p))
                    x = np.arange(1., 2 * r + 1)
                    compare(R, "extend",
                            lambda x: flat(npa, bd.extend(
                                x[:r] + 1j * x[r:], inds, shape)), x)
                    compare(R, "extend_real",
                            lambda x: npa.reshape(bd.extend(
                                x[:r], inds, shape), (-1, )), x)
            bm = np.zeros(shape, dtype=bool)
            bm.ravel()[::2] = True
            x = np.arange(1., 1. + bm.sum())
            compare(R, "extend_mask", lambda x: npa.reshape(
                bd.extend(x, bm, shape), (-1, )), x)
    elif name == "sqrt":
        for v in (0.01, .3, 1., 7., 250.):
            R.state(v)
            compare(R, "sqrt", lambda x: bd.sqrt(x), np.array([v]))
            for w in (-2., -.1, 0., .4):
                compare(R, "sqrt_c", lambda x: flat(
                    npa, bd.sqrt(x[0] + 1j * x[1])), np.array([v, w]))
                compare(R, "sqrt_prod", lambda x: flat(npa, bd.sqrt(
                    (x[0] + 1j * x[1]) * (1 + 2j))), np.array([v, w]))
        import autograd
        z = autograd.grad(lambda x: bd.sqrt(x))(0.)
        R.check(np.isfinite(z), "sqrt:0", "gradient at 0 is %s" % z)
        R.step()
    elif name == "toeplitz":
        for n, p in itertools.product(range(1, 5 if big else 4), repeat=2):
            for cplx in (0, 1):
                R.state((n, p, cplx))
                # independent entries: first block: t (p, t[0] real)
                # other blocks: T1 (p), T2 (p - 1; corner shared)
                nt, nu = n * p, (n - 1) * (p - 1)
                rng = np.cos(np.arange(2 * (nt + nu)) * 1.7 + n + p)

                def make(x):
                    m = nt + nu
                    # (the corner of the first block is the real average)
                    z = x[:m] + (1j * x[m:] * (np.arange(m) > 0) if cplx
                                 else 0.)
                    t = z[:p]
                    T1, T2 = [t], [npa.conj(t)]
                    o1, o2 = p, nt
                    for _ in range(n - 1):
                        a = z[o1:o1 + p]
                        T1.append(a)
                        T2.append(npa.concatenate([a[:1],
                                                   z[o2:o2 + p - 1]]))
                        o1 += p
                        o2 += p - 1
                    return npa.concatenate(T1), npa.concatenate(T2)
                x = rng if cplx else rng[:nt + nu]
                compare(R, "toeplitz", lambda x: flat(
                    npa, bd.toeplitz_block(n, *make(x))), x)
    elif name == "eigh":
        letters = [0., 1., .5 - .3j, 1j, -.7]
        diags = {1: [(0., ), (2., )],
                 2: [(0., 1.), (1., 1.), (-1., 2.5)],
                 3: [(0., 1., 2.5), (1., 1., 2.), (3., -1., .5)]}
        if big:
            diags[4] = [(0., 1., 2.5, -1.), (1., 1., 2., 2.)]
        for n in diags:
            nl = n * (n - 1) // 2
            offs = list(itertools.product(letters, repeat=nl)) if n <= 3 else \
                list(itertools.product(letters[1:4], repeat=nl))[::7]
            for d, off in itertools.product(diags[n], offs):
                M = np.diag(np.array(d, dtype=complex))
                M[np.tril_indices(n, -1)] = off
                A = M + np.tril(M, -1).conj().T
                w = np.linalg.eigvalsh(A)
                R.state((n, d, off))
                eig_case(R, bd, npa, A, w)
    elif name.startswith("eigsh"):
        # (k <= n - 2: scipy falls back to a non-Hermitian solver otherwise)
        letters = [0., .5 - .3j, 1j] if not big else [0., 1., .5 - .3j, 1j]
        n, half = 4, int(name[-1])
        for d in ((0., 1., 2.5, -1.), (.3, .9, 2., 3.1))[half:half + 1]:
            for off in itertools.product(letters, repeat=3):
                M = np.diag(np.array(d, dtype=complex))
                M[1, 0], M[2, 1], M[3, 1] = off
                M[3, 0] = .2
                M[3, 2] = .6j
                A = M + np.tril(M, -1).conj().T
                R.state((d, off))
                eigsh_case(R, bd, npa, A, np.linalg.eigvalsh(A))
    elif name == "inv":
        for n in (1, 2, 3):
            for cplx, shift in itertools.product((0, 1), (.5, 1., 3.)):
                R.state((n, cplx, shift))
                B = np.cos(np.arange(n * n) * 2.1 + shift).reshape(n, n) + \
                    shift * np.eye(n)
                x = B.ravel()
                if cplx:
                    x = np.concatenate([x, np.sin(np.arange(n * n) * 1.3)])

                def f(x):
                    z = x[:n * n] + (1j * x[n * n:] if cplx else 0.)
                    return flat(npa, bd.inv(npa.reshape(z, (n, n))))
                compare(R, "inv", f, x)
    elif name == "interp":
        grids = [[0., 1.], [0., 1., 2.], [0., .2, 1.5, 1.7], [-1., 0.5, 3.],
                 [0., 0., 1.], [0., 1., 1., 2.], [0., .5, 2., 2.], [1.5]]
        for xp in grids:
            xp = np.array(xp)
            pts = sorted(set(list(xp) + list((xp[1:] + xp[:-1]) / 2) +
                             list(xp[:-1] + 1e-6) + list(xp[1:] - 1e-6) +
                             [xp[0] - 2] +
                             [xp[0] - .3, xp[-1] + .3, xp[0] - 1e-12,
                              np.nextafter(xp[-1], 10)]))
            for r in (1, 2) if not big else (1, 2, 3):
                for t in itertools.product(pts, repeat=r):
                    R.state((tuple(xp), t))
                    yp = np.cos(np.arange(xp.size) * 1.9) + 2
                    compare(R, "interp", lambda y: bd.interp(
                        np.array(t), xp, y), yp)
                    if r == 1:
                        compare(R, "interp_c", lambda y: flat(npa, bd.interp(
                            np.array(t), xp, y[:xp.size] +
                            1j * y[xp.size:])), np.append(yp, yp[::-1]))
    elif name == "fsolve":
        def F1(x, g, e, d):
            return x**3 + g * x - npa.sum(e * e) - d[0] * d[1]

        def F2(x, g, e, d):
            return npa.sin(x * e[0]) - d[0] * x + g * d[1] * e[1]
        for g, e, d in itertools.product((.5, 2.), ([1., 2.], [.3, -.4]),
                                         ([.2, .7], [1.1, .05])):
            for k, F in enumerate((F1, F2)):
                R.state((g, tuple(e), tuple(d), k))
                lb, ub = (-5., 5.) if k == 0 else (-40., 40.)
                x = np.array(e + d)
                if k == 1:     # bracket one transversal root
                    s = np.linspace(-9, 9, 4001)
                    v = np.array([F(t, g, x[:2], x[2:]) for t in s])
                    i = np.where(v[1:] * v[:-1] < 0)[0]
                    if not len(i):
                        continue
                    lb, ub = s[i[0]], s[i[0] + 1]
                    dv = (v[i[0] + 1] - v[i[0]]) / (ub - lb)
                    if abs(dv) < .05:
                        continue
                    lb, ub = lb - 1e-3, ub + 1e-3
                compare(R, "fsolve", lambda x: npa.array(
                    [bd.fsolve_D22(F, lb, ub, g, x[:2], x[2:])]), x)
    elif name == "fmap":
        fns = [lambda p: npa.sum(p**2), lambda p: p[0] * npa.sin(p[-1]),
               lambda p: npa.exp(p[0]) + p[-1]]
        for r in (1, 2, 3):
            for t in itertools.product(range(3), repeat=r):
                for n in (1, 2, 3):
                    R.state((t, n))
                    x = np.cos(np.arange(n) + 1.)
                    compare(R, "fmap", lambda x: pr.fmap(
                        [fns[i] for i in t], x), x)
    elif name == "eig":
        for n in (1, 2, 3):
            for cplx, s in itertools.product((0, 1), (.3, 1.1, 2.)):
                A = np.cos(np.arange(n * n) * 1.7 + s).reshape(n, n) + \
                    np.diag(np.arange(n) * s)
                if cplx:
                    A = A + 1j * np.sin(np.arange(n * n) * 2.3).reshape(n, n)
                w = np.linalg.eigvals(A)
                if n > 1 and min(abs(a - b) for a, b in
                                 itertools.combinations(w, 2)) < .05:
                    continue
                R.state((n, cplx, s))

                def f(x):
                    z = x[:n * n] + (1j * x[n * n:] if cplx else 0.)
                    e, u = bd.eig(npa.reshape(z, (n, n)))
                    v = npa.abs(u)**2
                    return npa.concatenate(
                        [npa.real(e), npa.imag(e), npa.reshape(v, (-1, ))] +
                        [flat(npa, u[i] * npa.conj(u[0])) for i in range(n)])
                x = A.real.ravel() if not cplx else np.concatenate(
                    [A.real.ravel(), A.imag.ravel()])
                compare(R, "eig", f, x)
    elif name == "spdot":
        for n, m, c in itertools.product((1, 2, 3), (1, 2), (0, 1)):
            D = np.cos(np.arange(n * 3) * 1.3).reshape(n, 3)
            D[np.abs(D) < .4] = 0
            for S, cs in ((sp.coo_matrix(D), "r"),
                          (sp.csr_matrix(D * (1 + .5j)), "c")):
                for S2 in (S, S.T):
                    k = S2.shape[1]
                    R.state((n, m, c, cs, k))
                    x = np.sin(np.arange(2 * k * m) + 1.)

                    def f(x):
                        z = npa.reshape(x[:k * m] + (1j * x[k * m:] if c
                                                     else 0.), (k, m))
                        if m == 1:
                            z = z[:, 0]
                        return flat(npa, bd.spdot(S2, z))
                    compare(R, "spdot", f, x)


def herm(npa, x, n):
    """full matrix from n*n real parameters (lower part + diagonal)."""
    il = np.tril_indices(n, -1)
    k = len(il[0])
    M = npa.zeros((n, n), dtype=complex)
    for i in range(n):
        E = np.zeros((n, n))
        E[i, i] = 1
        M = M + x[i] * E
    for j in range(k):
        a, b = il[0][j], il[1][j]
        E = np.zeros((n, n))
        E[a, b] = 1
        M = M + (x[n + j] + 1j * x[n + k + j]) * E + \
            (x[n + j] - 1j * x[n + k + j]) * E.T
    return M


def herm_x(A):
    n = A.shape[0]
    il = np.tril_indices(n, -1)
    return np.concatenate([np.diag(A).real, A[il].real, A[il].imag])


def clusters(w):
    out = []
    for i, e in enumerate(w):
        if out and e - w[out[-1][-1]] < 1e-7:
            out[-1].append(i)
        else:
            out.append([i])
    return out


def eig_case(R, bd, npa, A, w):
    n = A.shape[0]
    cl = clusters(w)
    if any(w[b[0]] - w[a[-1]] < .02 for a, b in zip(cl, cl[1:])):
        return          # nearly degenerate: finite differences unreliable
    x = herm_x(A)
    one = [c[0] for c in cl if len(c) == 1]

    def f(x, up=None):
        M = herm(npa, x, n)
        e, v = bd.eigh(M) if up is None else bd.eigh(M, UPLO=up)
        o = [npa.array([npa.sum(e[c[0]:c[-1] + 1])]) for c in cl]
        for j in one:
            o += [flat(npa, v[:, j] * npa.conj(v[i, j])) for i in range(n)]
        return npa.concatenate(o)
    compare(R, "eigh", f, x)
    if n <= 2:
        for up in "LU":
            compare(R, "eigh_" + up, lambda x: f(x, up), x)

    def low(x):
        """only the lower part is read: an arbitrary complex matrix."""
        z = npa.reshape(x[:n * n] + 1j * x[n * n:], (n, n))
        e, v = bd.eigh(z)
        return npa.concatenate(
            [npa.array([npa.sum(e[c[0]:c[-1] + 1])]) for c in cl])
    compare(R, "eigh_low", low, np.concatenate([A.real.ravel(),
                                               A.imag.ravel()]))


def eigsh_case(R, bd, npa, A, w):
    n = A.shape[0]
    cl = clusters(w)
    if len(cl) < n or np.diff(w).min() < .05:
        return
    x = herm_x(A)
    for k in range(1, n - 1):
        for kw in (dict(which="SA"), dict(which="LA"),
                   dict(sigma=w[n // 2] + .011, which="LM")):
            d = np.sort(np.abs(w - kw.get("sigma", 0)))
            if "sigma" in kw and k < n and d[k] - d[k - 1] < .02:
                continue

            def f(x):
                M = herm(npa, x, n)
                e, v = bd.eigsh(M, k=k, v0=np.ones(n, dtype=complex), tol=0,
                                **kw)
                e0 = getattr(e, "_value", e)
                o = []
                for j in np.argsort(e0):
                    o.append(npa.array([e[j]]))
                    o += [flat(npa, v[:, j] * npa.conj(v[i, j]))
                          for i in range(n)]
                return npa.concatenate(o)
            compare(R, "eigsh", f, x)


# ------------------------------------------------------------------ solvers
def structures(npa, legume):
    """name -> (parameter names, start, position-only names, builder)."""
    Q = {}

    def full(p, lat):
        phc = legume.PhotCryst(lat, eps_l=p[0], eps_u=p[1])
        phc.add_layer(d=p[2], eps_b=p[4])
        phc.add_shape(legume.Circle(eps=p[9], r=p[8], x_cent=p[6],
                                    y_cent=p[7]))
        phc.add_shape(legume.Poly(eps=p[20], x_edges=[p[16], p[18], -.2],
                                  y_edges=[p[17], p[19], -.15]))
        phc.add_layer(d=p[3], eps_b=p[5])
        phc.add_shape(legume.Ellipse(eps=p[15], x_cent=p[10], y_cent=p[11],
                                     rx=p[12], ry=p[13], phi=p[14]))
        phc.add_shape(legume.FourierShape(
            eps=p[24], x_cent=.4, y_cent=-.4,
            f_as=npa.array([p[21], p[22]]), f_bs=npa.array([p[23]])))
        return phc
    Q["full"] = ("epsl epsu d1 d2 eb1 eb2 cx cy r ec ex ey rx ry phi ee px0 "
                 "py0 px1 py1 ep f0 fa fb fe".split(),
                 [1.3, 1.1, .3, .2, 11., 5., .05, -.03, .2, 1.5, -.1, .1, .2,
                  .12, .4, 2., -.3, -.4, -.1, -.4, 2.5, .15, .03, .02, 3.],
                 ["cx", "cy", "ex", "ey", "phi"], full)

    def pair(p, lat):
        """inversion symmetric at the start point."""
        phc = legume.PhotCryst(lat)
        phc.add_layer(d=p[6], eps_b=12.)
        phc.add_shape(legume.Circle(eps=1., x_cent=p[0], y_cent=p[1], r=p[4]))
        phc.add_shape(legume.Circle(eps=1., x_cent=p[2], y_cent=p[3], r=p[5]))
        return phc
    Q["pair"] = ("x1 y1 x2 y2 r1 r2 d".split(),
                 [.25, .1, -.25, -.1, .15, .15, .4],
                 ["x1", "y1", "x2", "y2"], pair)

    def one(p, lat):
        phc = legume.PhotCryst(lat)
        phc.add_layer(d=p[3], eps_b=p[4])
        phc.add_shape(legume.Circle(eps=p[5], x_cent=p[0], y_cent=p[1],
                                    r=p[2]))
        return phc
    Q["one"] = ("x y r d eb es".split(), [0., 0., .3, .35, 12., 1.],
                ["x", "y"], one)

    def sq(p, lat):
        phc = legume.PhotCryst(lat)
        phc.add_layer(d=p[6], eps_b=9.)
        s = legume.Square(eps=1., x_cent=p[0], y_cent=p[1], a=p[2])
        phc.add_shape(s)
        h = legume.Hexagon(eps=2., x_cent=p[3], y_cent=p[4], a=p[5])
        phc.add_shape(h)
        return phc
    Q["squhex"] = ("sx sy sa hx hy ha d".split(),
                   [-.2, -.2, .3, .25, .2, .17, .45],
                   ["sx", "sy", "hx", "hy"], sq)

    def rot(p, lat):
        phc = legume.PhotCryst(lat, eps_u=1.4)
        phc.add_layer(d=.3, eps_b=10.)
        s = legume.Square(eps=1., x_cent=.1, y_cent=0., a=p[1])
        s.rotate(p[0])
        f = legume.FourierShape(eps=2., x_cent=-.35, y_cent=.3,
                                f_as=npa.array([.1, 0., p[3]]))
        f.rotate(p[2])
        phc.add_shape(s)
        phc.add_shape(f)
        return phc
    Q["rot"] = ("ang a fang fa".split(), [0., .35, .2, .02], ["ang", "fang"],
                rot)

    def clad(p, lat):
        phc = legume.PhotCryst(lat, eps_l=p[0], eps_u=p[1])
        phc.add_layer(d=.4, eps_b=10.)
        phc.add_shape(legume.Circle(eps=1., r=p[2]))
        phc.add_shape(legume.Circle(eps=p[3], r=p[4], x_cent=p[5]),
                      cladding=0)
        phc.add_shape(legume.Poly(eps=p[6], x_edges=[-.2, p[7], -.1],
                                  y_edges=[-.2, -.2, p[8]]), cladding=1)
        return phc
    Q["clad"] = ("el eu r ecl rcl xcl epo px py".split(),
                 [1.2, 1.1, .25, 2., .3, .1, 1.8, .25, .3], ["xcl"], clad)

    def sym(p, lat):
        """mirror-symmetric cladding-to-cladding (for kz_symmetry)."""
        phc = legume.PhotCryst(lat, eps_l=p[0], eps_u=p[0])
        phc.add_layer(d=p[1], eps_b=p[2])
        phc.add_shape(legume.Circle(eps=p[3], x_cent=p[4], r=p[5]))
        phc.add_shape(legume.Circle(eps=2., x_cent=-.3, r=p[6]))
        return phc
    Q["sym"] = ("ecl d eb es x r r2".split(),
                [1.2, .4, 11., 1., .15, .2, .1], ["x"], sym)
    return Q


OPTS = {
    "def": {},
    "tbt": dict(truncate_g="tbt"),
    "eigsh": dict(eig_solver="eigsh", eig_sigma=.31),
    "sigma": dict(eig_sigma=.35),
    "interp": dict(gmode_compute="interp", gmode_npts=31),
    "tmonly": dict(gmode_inds=[1, 3]),
    "teonly": dict(gmode_inds=[0]),
    "bg": dict(eps_eff="background"),
    "approx": dict(gradients="approx"),
    "odd": dict(kz_symmetry="odd"),
    "even": dict(kz_symmetry="even"),
    "both": dict(kz_symmetry="both"),
    "sparse": dict(kz_symmetry="both", use_sparse=True),
}
KP = {"gen": (.7, .4), "x": (1.3, 0.), "gam": (0., 0.), "edge": (np.pi, .2)}


def gme_run(npa, legume, build, p, lat, k, opt):
    o = dict(OPTS[opt])
    phc = build(p, lat)
    g = legume.GuidedModeExp(phc, gmax=1.05, truncate_g=o.pop("truncate_g",
                                                              "abs"))
    kw = dict(gmode_inds=[0, 1, 3], numeig=5, verbose=False)
    kw.update(o)
    if "kz_symmetry" in kw:
        kw["angles"] = np.array([np.arctan2(k[1], k[0])])
    g.run(kpoints=np.array([[k[0]], [k[1]]]), **kw)
    return g


def pick(fr, thr=2e-3):
    """modes of a spectrum that are isolated."""
    fr = np.asarray(fr)
    return [i for i in range(len(fr) - 1)       # the last may have a partner
            if all(abs(fr[i] - fr[j]) > thr for j in range(len(fr))
                   if j != i) and fr[i] > .02]


def gme_out(npa, g, what, modes, zs):
    if what == "freqs":
        return g.freqs[0, np.array(modes)]
    if what == "losses":
        return g.freqs_im[0, np.array(modes)] * 100
    if what == "rad":
        (im, coup) = g.compute_rad(0, modes)[:2]
        o = []
        for c in ("l_te", "l_tm", "u_te", "u_tm"):
            for v in coup[c]:
                o.append(npa.abs(npa.reshape(npa.array(v), (-1, )))**2)
        return npa.concatenate(o) * 10
    xg, yg = np.array([.1, .37]), np.array([.21])
    o = []
    for m in modes[:3]:
        for f, z in zip("HED", zs):
            fi = g.get_field_xy(f, 0, m, z, xgrid=xg, ygrid=yg)[0]
            for c in "xyz":
                o.append(npa.abs(npa.reshape(fi[c], (-1, )))**2)
            o.append(npa.reshape(npa.real(fi["x"] * npa.conj(fi["z"])),
                                 (-1, )))
            o.append(npa.reshape(npa.imag(fi["y"] * npa.conj(fi["x"])),
                                 (-1, )))
    return npa.concatenate(o)


def gme_case(case, R, legume):
    import autograd.numpy as npa
    names, x0, pos, build = structures(npa, legume)[case["s"]]
    lat = structs.lattice(legume, case["lat"])
    k = KP[case["k"]]
    x0 = np.array(x0)
    g0 = gme_run(npa, legume, build, x0, lat, k, case["opt"])
    modes = pick(g0.freqs[0])
    key = "gme:%s" % case["opt"]
    if not modes:
        R.count("no isolated mode")
        return
    top = float(g0.phc.layers[-1].z_max)
    zs = (.13, top - .07, top + .2)
    R.state((case["s"], case["lat"], case["k"], case["opt"]))
    cols = None
    if case["opt"] == "approx":
        cols = [names.index(n) for n in pos]
    for what in case["out"]:
        ms = modes
        if what in ("rad", "losses"):
            ms = [m for m in modes if g0.freqs_im[0][m] > 1e-7]
            if not ms:
                continue

        def f(p):
            g = gme_run(npa, legume, build, p, lat, k, case["opt"])
            return gme_out(npa, g, what, ms, zs)
        # the numpy backend gives the same value
        v = np.asarray(f(x0))
        legume.set_backend("numpy")
        vn = np.asarray(f(x0))
        legume.set_backend("autograd")
        R.check(np.allclose(v, vn, rtol=1e-7, atol=1e-9), key + ":backend",
                "%s: %s with autograd, %s with numpy" % (what, v, vn))
        compare(R, key + ":" + what, f, x0, names, tol=2e-5, cols=cols)


def pwe_case(case, R, legume):
    import autograd.numpy as npa
    lat = structs.lattice(legume, case["lat"])
    names = "kx ky eb cx cy r ec ex ey rx ry phi ee px0 py0 px1 py1 ep f0 fa " \
        "fb".split()
    k = KP[case["k"]]
    x0 = np.array([k[0], k[1], 9., .05, -.03, .2, 1.5, -.25, .3, .15, .1, .3,
                   2., -.35, -.4, -.1, -.4, 2.5, .1, .02, .01])

    def build(p):
        l = legume.ShapesLayer(lat, eps_b=p[2])
        l.add_shape(legume.Circle(eps=p[6], r=p[5], x_cent=p[3], y_cent=p[4]))
        l.add_shape(legume.Ellipse(eps=p[12], x_cent=p[7], y_cent=p[8],
                                   rx=p[9], ry=p[10], phi=p[11]))
        l.add_shape(legume.Poly(eps=p[17], x_edges=[p[13], p[15], -.2],
                                y_edges=[p[14], p[16], -.2]))
        l.add_shape(legume.FourierShape(
            eps=3., x_cent=.4, y_cent=.3, f_as=npa.array([p[18], p[19]]),
            f_bs=npa.array([p[20]])))
        return l

    def run(p):
        g = legume.PlaneWaveExp(build(p), gmax=1.6)
        g.run(kpoints=npa.array([[p[0]], [p[1]]]), pol=case["pol"], numeig=5)
        return g
    g0 = run(x0)
    modes = pick(g0.freqs[0])
    R.state((case["lat"], case["k"], case["pol"]))
    key = "pwe:" + case["pol"]
    if not modes:
        return
    for what in case["out"]:
        def f(p):
            g = run(p)
            if what == "freqs":
                return g.freqs[0, np.array(modes)]
            o = []
            comps = dict(te=dict(H="z", D="xy", E="xy"),
                         tm=dict(H="xy", D="z", E="z"))[case["pol"]]
            for m in modes[:3]:
                for fl, cs in comps.items():
                    fi = g.get_field_xy(fl, 0, m, component=cs, Nx=3,
                                        Ny=2)[0]
                    for c in cs:
                        o.append(npa.abs(npa.reshape(fi[c], (-1, )))**2)
            return npa.concatenate(o)
        v = np.asarray(f(x0))
        legume.set_backend("numpy")
        vn = np.asarray(f(x0))
        legume.set_backend("autograd")
        R.check(np.allclose(v, vn, rtol=1e-7, atol=1e-9), key + ":backend",
                "%s: %s with autograd, %s with numpy" % (what, v, vn))
        cols = None
        if case["k"] == "gam":
            # the frequency of the lowest modes has a cusp at Gamma
            cols = list(range(2, len(names)))
        compare(R, key + ":" + what, f, x0, names, tol=2e-5, cols=cols)


def shape_case(case, R, legume):
    """the Fourier coefficients and area of every shape w.r.t. every
    parameter, at a full set of wavevectors including the special ones."""
    import autograd.numpy as npa
    gl = [-7.3, -2 * np.pi, 0., 1., 2 * np.pi, 4 * np.pi]
    gv = np.array([(a, b) for a in gl for b in gl]).T
    kinds = {
        "circle": (lambda p: legume.Circle(x_cent=p[0], y_cent=p[1], r=p[2]),
                   [[0., 0., .3], [.2, -.1, .15], [0., 0., .01]]),
        "ellipse": (lambda p: legume.Ellipse(x_cent=p[0], y_cent=p[1],
                                             rx=p[2], ry=p[3], phi=p[4]),
                    [[0., 0., .3, .2, 0.], [.1, .2, .2, .2, .5],
                     [.1, -.2, .1, .3, 1.2]]),
        "square": (lambda p: legume.Square(x_cent=p[0], y_cent=p[1], a=p[2]),
                   [[0., 0., .4], [.1, -.2, .25]]),
        "hexagon": (lambda p: legume.Hexagon(x_cent=p[0], y_cent=p[1],
                                             a=p[2]),
                    [[0., 0., .4], [.1, -.2, .25]]),
        "poly": (lambda p: legume.Poly(x_edges=p[:4], y_edges=p[4:]),
                 [[-.2, .2, .2, -.2, -.2, -.2, .2, .2],
                  [-.2, .3, .1, -.2, -.3, -.2, .2, .1],
                  [0., .3, 0., -.3, -.3, 0., .3, 0.]]),
        "fourier": (lambda p: legume.FourierShape(
            x_cent=p[0], y_cent=p[1], f_as=npa.array(p[2:4]),
            f_bs=npa.array(p[4:5]), npts=40),
            [[0., 0., .3, 0., 0.], [.1, .1, .2, .05, -.03]]),
        "rsquare": (lambda p: legume.Square(
            x_cent=p[0], y_cent=p[1], a=p[2]).rotate(p[3]),
            [[0., 0., .4, 0.], [.1, -.2, .25, np.pi / 4], [0., .1, .3, .3]]),
    }
    mk, starts = kinds[case["kind"]]
    for x in starts:
        R.state((case["kind"], tuple(x)))

        def f(p):
            s = mk(p)
            v = s.compute_ft(gv)
            return npa.concatenate([npa.reshape(
                npa.array([s.area]), (-1, )), npa.real(v), npa.imag(v)])
        compare(R, "shape:" + case["kind"], f, np.array(x), tol=1e-5)


def traced_k(R, legume):
    """wavevectors are not differentiable in the slab solver: a traced one is
    either refused or has the right derivative, never a silent zero."""
    import autograd
    import autograd.numpy as npa
    lat = structs.lattice(legume, "oblique")
    Q = structures(npa, legume)["one"]
    for opt in ("def", "tbt", "interp"):
        def f(p):
            o = dict(OPTS[opt])
            g = legume.GuidedModeExp(Q[3](Q[1], lat), gmax=1.05,
                                     truncate_g=o.pop("truncate_g", "abs"))
            g.run(kpoints=npa.array([[p[0]], [p[1]]]), gmode_inds=[0, 1],
                  numeig=3, verbose=False, compute_im=False, **o)
            return g.freqs[0, 1]
        x = np.array([.7, .4])
        R.state(("traced_k", opt))
        R.step(3)
        try:
            J = autograd.grad(f)(x)
        except Exception as e:
            R.outcome(type(e).__name__)
            R.trace()
            continue
        N = num_jac(lambda p: np.array([f(p)]), x)[0]
        R.trace()
        R.check(np.allclose(J, N, rtol=1e-4, atol=1e-6), "gme:traced_k",
                "%s: gradient w.r.t. the wavevector %s, derivative %s" %
                (opt, J, N))


def traced_query(R, legume):
    """permittivity maps made while the permittivities of shapes are traced are
    those of the untraced structure."""
    import autograd
    import autograd.numpy as npa
    x, y, z = np.meshgrid(np.linspace(-.6, .7, 9), np.linspace(-.5, .6, 8),
                          [-.3, .1, .29, .4, .9], indexing="ij")
    for lat in ("square", "oblique"):
        for name, (names, p0, _, build) in structures(npa, legume).items():
            L = structs.lattice(legume, lat)

            def query(phc):
                out = [np.asarray(phc.get_eps((x, y, z)))]
                out += [y_.get_eps((x[..., 0], y[..., 0]))
                        for y_ in phc.layers + phc.claddings]
                b = phc.get_eps_bounds()
                return out + [np.array([getattr(v, "_value", v) for v in b])]

            def f(p):
                got.append(query(build([p[i] if i in tr else v for i, v in
                                        enumerate(p0)], L)))
                return npa.sum(p)
            got = []
            tr = [i for i, n in enumerate(names)
                  if n in ("ec", "ee", "ep", "fe", "es", "epo") or
                  (n == "ecl" and name == "clad")]
            ref = query(build(np.array(p0), L))
            R.state(("query", lat, name))
            R.step(2 * len(ref))
            R.trace(len(ref))
            autograd.grad(f)(np.array(p0))
            R.check(len(got) == 1 and all(np.array_equal(a, b) for a, b in
                                          zip(got[0], ref)),
                    "traced query", "%s %s" % (lat, name))


def cases(tier):
    out = [dict(kind="prim", name=n, tier=tier) for n in
           ("extend", "sqrt", "toeplitz", "eigh", "inv", "eigsh0", "eigsh1", "interp",
            "fsolve", "fmap", "eig", "spdot")]
    for s in ("circle", "ellipse", "square", "hexagon", "poly", "fourier",
              "rsquare"):
        out.append(dict(kind="shape", **{"kind_": s}))
    quick = tier == "quick"
    lats = ["oblique"] if quick else ["oblique", "square", "hexagonal", "rect"]
    ks = ["gen", "gam"] if quick else ["gen", "gam", "edge", "x"]
    for lat, k, pol in itertools.product(
            ["square", "oblique"] if quick else list(structs.LATTICES), ks,
            ("te", "tm")):
        for o in ("freqs", "fields"):
            out.append(dict(kind="pwe", lat=lat, k=k, pol=pol, out=[o]))
    plan = []
    for s in ("pair", "one", "squhex", "rot", "clad", "full"):
        for opt in ("def", "tbt", "eigsh", "sigma", "interp", "bg", "approx",
                    "tmonly", "teonly"):
            if quick and opt in ("interp", "sigma", "tmonly", "teonly",
                                 "bg", "tbt") and s not in ("pair", "clad"):
                continue
            if s == "clad" and opt == "bg" and quick:
                continue
            plan.append((s, opt))
    for s, opt in plan:
        for lat in (["square"] if s in ("pair", "one") and quick else lats):
            for k in (ks if s in ("pair", "one") or not quick else ["gen"]):
                if quick and opt == "interp" and k == "gam":
                    continue
                outs = ["freqs", "losses", "rad", "fields"]
                if opt == "interp":
                    outs = ["freqs"] if quick else outs
                if opt == "approx":
                    outs = ["freqs", "losses", "fields"]
                if s == "full":
                    for o in outs:
                        out.append(dict(kind="gme", s=s, lat=lat, k=k,
                                        opt=opt, out=[o]))
                else:
                    out.append(dict(kind="gme", s=s, lat=lat, k=k, opt=opt,
                                    out=outs))
    out.append(dict(kind="traced_k"))
    out.append(dict(kind="query"))
    for opt in ("odd", "even", "both", "sparse"):
        for lat in ("square", "rect"):
            out.append(dict(kind="gme", s="sym", lat=lat, k="x", opt=opt,
                            out=["freqs", "losses"] +
                            ([] if opt == "sparse" else ["fields"])))
    return out


def run_case(case, R):
    import legume
    legume.set_backend("autograd")
    try:
        if case["kind"] == "prim":
            prim(case["name"], R, case["tier"])
        elif case["kind"] == "shape":
            shape_case(dict(kind=case["kind_"]), R, legume)
        elif case["kind"] == "query":
            traced_query(R, legume)
        elif case["kind"] == "traced_k":
            traced_k(R, legume)
        elif case["kind"] == "pwe":
            pwe_case(case, R, legume)
        else:
            gme_case(case, R, legume)
    finally:
        legume.set_backend("numpy")
