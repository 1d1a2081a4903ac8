"""C20: numeric building blocks against their mathematical definition."""
import itertools
import warnings
import numpy as np
import scipy.constants as sc
import scipy.special

PROPERTY = "C20"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "coefficients given twice for the same wavevector are the same number "
    "(the only way the solvers call the inverse transform)",
    "the shared corner of first row and first column of a block is the same "
    "number in both inputs, and real on the diagonal blocks",
    "bracketing search: the function is continuous with a simple sign change "
    "within the bracket; accuracy 1e-10",
    "a coordinate on an interface belongs to the layer below (behaviour of the "
    "library, also used by the other checks)",
]
BOUNDS = {
    "quick": "every wavevector list of <= 3 of 5 vectors x coefficients x 6 "
             "grids; every block count <= 4 x block size <= 4 x number types; "
             "root search on 9 functions x all brackets of a 9-point grid; "
             "every array of <= 4 values x target x count; all 65536 pairs of "
             "2x2 scattering matrices over 4 values; every index set of 5 "
             "shapes; stacks of <= 3 layers x all boundaries; every backend "
             "function x argument list x backend; all stacks of <= 3 layers over 3 "
             "letters x claddings x (g, omega): wavenumbers, radiative states, "
             "dispersion function; every backend switching "
             "history of <= 4 calls; numerical gradients",
    "thorough": "lists of <= 4 vectors, blocks <= 6, arrays of <= 5 values, 5 "
                "values per matrix entry, 4 layers, histories of <= 6 calls",
}


def cases(tier):
    th = tier == "thorough"
    out = [dict(kind=k, th=th) for k in
           ("toeplitz", "fsolve", "nearest", "extend", "layers", "units",
            "gradnum", "vjpnum", "getvalue", "switch", "backend")]
    for n in range(1, 5 if th else 4):
        out.append(dict(kind="slab", n=n, th=th))
    for n in range(0, 5 if th else 4):
        out.append(dict(kind="ftinv", n=n, th=th))
    for i in range(5 if th else 4):
        out.append(dict(kind="star", i=i, th=th))
    return out


def close(a, b, tol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


# ------------------------------------------------------- inverse transform
def run_ftinv(c, R):
    from legume.utils import ftinv
    # the last two vectors nearly coincide with others (large supercells)
    V = [(0., 0.), (2., -1.), (-2., 1.), (2., 3.5), (0., -7.), (2., 3.53),
         (-.004, 0.)]
    co = [1., .5 - 2j, 0., -1j, 3., 1.3, .2 + 1j]
    nV = len(V)
    grids = [([], []), ([.3], [.1]), ([0.], [-1., 2.]), ([.5, -.5], []),
             ([2., -1., .3], [.7]), ([.1, .2, .5, .9], [-.4, 0., 1.1])]
    for combo in itertools.product(range(len(V)), repeat=c["n"]):
        for shift, neg, real in ((0, False, False), (1, True, False),
                                 (3, False, True)):
            f = [co[(i + shift) % nV] for i in combo]
            if real:
                f = [abs(x) for x in f]
            g = np.array([V[i] for i in combo], float).reshape(-1, 2).T
            if neg:
                # a repeated zero component may carry a sign
                g = np.where((g == 0) & (np.arange(g.shape[1]) % 2 == 1)[None],
                             -0., g)
            for gx, gy in grids:
                R.state((combo, shift, len(gx), len(gy)))
                got = ftinv(np.array(f), g, np.array(gx), np.array(gy))
                R.step()
                exp = np.zeros((len(gy), len(gx)), complex)
                for i in set(combo):
                    fi = f[combo.index(i)]
                    for a, y in enumerate(gy):
                        for b, x in enumerate(gx):
                            exp[a, b] += fi * np.exp(
                                1j * (V[i][0] * x + V[i][1] * y))
                R.trace()
                R.check(close(got, exp, 1e-11), "ftinv",
                        "ftinv of %s at %s, %s: %s expected %s" %
                        (list(zip(f, g.T.tolist())), gx, gy, got, exp))
                R.outcome(np.round(exp, 6).tobytes())


# ------------------------------------------------------------ block Toeplitz
def run_toeplitz(c, R):
    import legume as l
    N = 6 if c["th"] else 4
    for n, p in itertools.product(range(1, N + 1), repeat=2):
        m = n * p
        u = np.arange(m)
        base = dict(
            code=(u + 1 + 1j * (u + 100) * (u > 0),
                  50 + u + 1j * (u + 300) * (u > 0)),
            real=(u + 1., 60. + u * u),
            int=(u + 1, 60 + u),
            r1c2=(u + 1., 50 + u + 1j * (u + 300) * (u > 0)),
            c1r2=(u + 1 + 1j * (u + 100) * (u > 0), 60. + u),
            i1r2=(u + 1, .5 + u),
            r1i2=(u + .25, 60 + u),
        )
        for nm, (T1, T2) in base.items():
            T1, T2 = T1.copy(), T2.copy()
            for b in range(n):  # common corner of each block
                i = b * p
                if nm in ("r1c2", "i1r2"):
                    # representable in both
                    T2[i] = T1[i]
                elif nm in ("c1r2", "r1i2"):
                    T1[i] = T2[i]
                else:
                    T2[i] = T1[i]
            E = np.zeros((m, m), complex)
            for I, J, a, b in itertools.product(range(n), range(n), range(p),
                                                range(p)):
                i, j = I * p + a, J * p + b
                if j < i:
                    continue
                v = T1[(J - I) * p + b - a] if b >= a else \
                    T2[(J - I) * p + a - b]
                E[i, j] = v
                if i != j:
                    E[j, i] = np.conj(v)
            for bk in ("numpy", "autograd"):
                l.set_backend(bk)
                c1, c2 = T1.copy(), T2.copy()
                got = l.backend.toeplitz_block(n, T1, T2)
                R.step()
                R.state((n, p, nm, bk))
                R.trace()
                R.check(close(got, E), "toeplitz:" + nm,
                        "toeplitz_block(n=%d, p=%d, %s, %s)" % (n, p, nm, bk))
                R.check(np.array_equal(c1, T1) and np.array_equal(c2, T2),
                        "toeplitz:mod", "inputs modified")
            l.set_backend("numpy")
            R.outcome(E.tobytes()[:400])


# -------------------------------------------------------------- root search
def run_fsolve(c, R):
    import legume as l
    from legume.utils import fsolve
    F = {
        "lin": lambda x, a, b, d: a * x - b,
        "cub": lambda x, a, b, d: x**3 - b + a * x,
        "exp": lambda x, a, b, d: np.exp(a * x) - 1.5 - b,
        "tan": lambda x, a, b, d: np.tanh(20 * (x - b / 4)) * a,
        "flat": lambda x, a, b, d: (x - b / 4) * (1e-3 + x**2),
        "tiny": lambda x, a, b, d: 1e-9 * (x - b / 3),
        "big": lambda x, a, b, d: 1e9 * (b / 3 - x),
        "step": lambda x, a, b, d: (x - .7) * (1 if x > 0 else 3),
        "arr": lambda x, a, b, d: x * a - float(np.sum(d)),
    }
    root = {
        "lin": lambda a, b, d: b / a,
        "exp": lambda a, b, d: np.log(1.5 + b) / a,
        "tan": lambda a, b, d: b / 4,
        "flat": lambda a, b, d: b / 4,
        "tiny": lambda a, b, d: b / 3,
        "big": lambda a, b, d: b / 3,
        "step": lambda a, b, d: .7,
        "arr": lambda a, b, d: np.sum(d) / a,
    }
    pts = [-2., -1., -.25, 0., .1, .25, .7, 1., 3.]
    for (nm, f), (lb, ub), (a, b), bk in itertools.product(
            F.items(), itertools.combinations(pts, 2),
            ((1., 1.), (2.5, .2), (.7, -.4)), ("numpy", "autograd")):
        d = np.array([.2, -.1, a * .1])
        if nm == "cub":
            rts = np.roots([1., 0., a, -b])
            x0 = float(np.real(rts[np.argmin(np.abs(np.imag(rts)))]))
        else:
            x0 = float(root[nm](a, b, d))
        l.set_backend(bk)
        fn = l.backend.fsolve_D22
        args = (a, np.array(b), d)
        R.state((nm, lb, ub, a, b, bk))
        desc = "fsolve %s on [%g, %g] with %s (%s)" % (nm, lb, ub, args, bk)
        inside = lb <= x0 <= ub
        edge = min(abs(lb - x0), abs(ub - x0)) < 1e-9 and not inside
        if edge:
            continue
        try:
            x = fn(f, lb, ub, *args)
        except ValueError:
            # an end point that is a root only up to rounding has no sign
            # change in floating point
            near = min(abs(lb - x0), abs(ub - x0)) < 1e-9
            R.check(not inside or near, "fsolve:missed", desc + ": no root "
                    "found, expected %.12g" % x0)
            R.outcome("none")
        else:
            tol = 1e-10 * max(1, abs(x0))
            R.check(inside and abs(x - x0) < tol and np.ndim(x) == 0,
                    "fsolve:root", "%s = %r, expected %.12g" % (desc, x, x0))
            R.outcome(round(float(x), 9))
        R.step()
        R.trace()
        l.set_backend("numpy")


# ---------------------------------------------------- multilayer wave blocks
def run_slab(c, R):
    """Wavenumbers, dispersion function (scalar and vectorised) and radiative
    states of every stack of n layers."""
    from legume.gme import slab_modes as sm
    let = [(.3, 12.), (.5, 2.), (.2, 1.)] + ([(.4, 5.)] if c["th"] else [])
    for lay in itertools.product(let, repeat=c["n"]):
        for e1, e2 in ((1., 1.), (2.1, 1.), (1., 3.)):
            eps = np.array([e1] + [e for _, e in lay] + [e2])
            d = np.array([x for x, _ in lay])
            zb = np.concatenate(([0.], np.cumsum(d)))
            zc = np.concatenate(([0.], zb[1:] - d / 2, [zb[-1]]))
            for g in (0., .7, 3.3):
                for om in (.2, 1.3, 2.9):
                    q = eps * om**2 - g * g
                    chi = sm.chi(om, g, eps)
                    R.step()
                    R.check(np.allclose(chi**2, q) and np.all(
                        np.where(q >= 0, np.real(chi) >= 0,
                                 np.imag(chi) > 0)), "slab:chi", str(chi))
                    R.state((lay, e1, e2, g, om))
                    if np.min(np.abs(q)) < 1e-6:
                        continue
                    for pol, clad in itertools.product(
                        ("te", "tm", "TE", "TM"), (0, 1)):
                        X, Y = sm.rad_modes(om, np.array([g, 1.1 * g]), eps, d,
                                            pol, clad)
                        R.step()
                        R.trace()
                        if not R.check(np.shape(X) == (len(eps), 2) ==
                                       np.shape(Y), "slab:shape",
                                       str(np.shape(X))):
                            continue
                        X, Y = X[:, 0], Y[:, 0]
                        p = 1 / eps if pol.lower() == "tm" else 1 + 0 * eps
                        err = 0.
                        for i, z in enumerate(zb):
                            v = []
                            for j in (i, i + 1):
                                a = X[j] * np.exp(-1j * chi[j] * (z - zc[j]))
                                b = Y[j] * np.exp(1j * chi[j] * (z - zc[j]))
                                v.append((a + b, p[j] * chi[j] * (b - a)))
                            for s, t in zip(*v):
                                err = max(err, abs(s - t) / (1 + abs(s)))
                        nrm = 1. if pol.lower() == "tm" else \
                            1 / om / np.sqrt(eps[-clad])
                        info = "%s clad=%d eps=%s d=%s g=%g om=%g" % (
                            pol, clad, eps, d, g, om)
                        R.check(err < 1e-9, "slab:rad interface", info)
                        R.check(abs((Y[0], X[-1])[clad] - nrm) < 1e-12 and
                                abs((X[-1], Y[0])[clad]) < 1e-12,
                                "slab:rad amplitudes", "%s X=%s Y=%s" %
                                (info, X, Y))
                        R.outcome(np.round(X, 6).tobytes())
                if not (g and max(eps[1:-1]) > max(e1, e2)):
                    continue
                lo, hi = g / np.sqrt(max(eps)), g / np.sqrt(max(e1, e2))
                for pol in ("te", "tm", "TE"):
                    oms = lo + (hi - lo) * np.array([.81, .13, .5, .5, .99])
                    for sel in (oms, oms[:1], oms[:0], float(oms[2])):
                        got = sm.D22s_vec(sel, g, eps, d, pol)
                        R.step()
                        R.trace()
                        want = np.array([np.squeeze(sm.D22(o, g, eps, d, pol))
                                         for o in np.atleast_1d(sel)])
                        R.check(np.shape(got) == np.shape(want) and
                                close(got, want, 1e-9), "slab:D22s_vec",
                                "%s eps=%s d=%s g=%g at %s: %s expected %s" %
                                (pol, eps, d, g, sel, got, want))


# ------------------------------------------------------------ nearest values
def run_nearest(c, R):
    from legume.utils import find_nearest
    vals = [-1., 0., .5, 2., 2.]
    for n in range(0, 6 if c["th"] else 5):
        for combo in itertools.product(range(5), repeat=n):
            a = np.array([vals[i] for i in combo])
            for v, N in itertools.product((-5., 0., .25, 2., 1.2),
                                          (0, 1, 2, 3, 7)):
                b = a.copy()
                idx = np.asarray(find_nearest(a, v, N))
                R.step()
                R.state((combo, v, N))
                d = np.abs(b - v)
                ok = len(idx) == min(N, n) and len(set(idx.tolist())) == len(
                    idx) and all(0 <= i < n for i in idx)
                if ok and len(idx):
                    s = d[idx]
                    rest = np.delete(d, idx)
                    ok = np.all(np.diff(s) >= 0) and (
                        not rest.size or rest.min() >= s.max())
                R.trace()
                R.check(ok and np.array_equal(a, b), "nearest",
                        "find_nearest(%s, %g, %d) = %s" % (b, v, N, idx))
                R.outcome(tuple(idx.tolist()))


# ------------------------------------------------------------ array extension
def run_extend(c, R):
    import legume as l
    for bk in ("numpy", "autograd"):
        l.set_backend(bk)
        fn = l.backend.extend
        for shape in ((1, ), (3, ), (4, ), (2, 2), (2, 3)):
            size = int(np.prod(shape))
            for m in range(size + 1):
                for s in itertools.permutations(range(size), m) if size < 4 \
                        else itertools.combinations(range(size), m):
                    for dt in (float, complex, int):
                        v = (np.arange(m) + 1).astype(dt)
                        if dt is complex:
                            v = v * (1 - 2j)
                        idx = np.array(s, int)
                        inds = idx if len(shape) == 1 else np.unravel_index(
                            idx, shape)
                        got = fn(v, inds, shape)
                        R.step()
                        R.state((bk, shape, s, dt.__name__))
                        exp = np.zeros(size, dt)
                        for i, x in zip(s, v):
                            exp[i] = x
                        R.trace()
                        R.check(close(got, exp.reshape(shape)) and
                                got.dtype == v.dtype, "extend",
                                "extend(%s, %s, %s)" % (v, s, shape))
                        # logical masks
                        if tuple(sorted(s)) == s:
                            mk = np.zeros(size, bool)
                            mk[idx] = True
                            got = fn(v, mk.reshape(shape), shape)
                            R.step()
                            R.check(close(got, exp.reshape(shape)),
                                    "extend:mask", "extend with mask")
        l.set_backend("numpy")


# --------------------------------------------------------------- star product
def run_star(c, R):
    from legume.utils import RedhefferStar
    al = [0., .5, -.3j, 1.] + ([.2 + .9j] if c["th"] else [])
    mats = [np.array(m).reshape(2, 2)
            for m in itertools.product(al, repeat=4)]
    first = [m for m in mats if m[0, 0] == al[c["i"]]]
    for A, B in itertools.product(first, mats):
        D = 1 - B[0, 0] * A[1, 1]
        if abs(D) < 1e-9:
            R.count("resonant pairs (excluded)")
            continue
        # amplitudes between the two: x towards A, y towards B
        exp = np.zeros((2, 2), complex)
        for col, (a1, a2) in enumerate(((1., 0.), (0., 1.))):
            # x = B11 y + B12 a2,  y = A21 a1 + A22 x
            x = (B[0, 0] * A[1, 0] * a1 + B[0, 1] * a2) / D
            y = A[1, 0] * a1 + A[1, 1] * x
            exp[0, col] = A[0, 0] * a1 + A[0, 1] * x
            exp[1, col] = B[1, 0] * y + B[1, 1] * a2
        got = RedhefferStar(A, B)
        R.step()
        R.state((A.tobytes(), B.tobytes()))
        R.trace()
        R.check(close(got, exp, 1e-10), "star", "star(%s, %s) = %s, expected "
                "%s" % (A.tolist(), B.tolist(), got.tolist(), exp.tolist()))
    I = np.array([[0., 1.], [1., 0.]])
    for A in first:
        R.check(close(RedhefferStar(A, I), A) and
                close(RedhefferStar(I, A), A), "star:identity",
                "star with the identity: %s" % A.tolist())
        R.trace()
    for A, B, C in itertools.product(first[:12], mats[5::37], mats[3::41]):
        if abs(1 - B[0, 0] * A[1, 1]) < .1 or abs(1 - C[0, 0] * B[1, 1]) < .1:
            continue
        AB, BC = RedhefferStar(A, B), RedhefferStar(B, C)
        if abs(1 - C[0, 0] * AB[1, 1]) < .1 or abs(1 - BC[0, 0] *
                                                   A[1, 1]) < .1:
            continue
        R.step(2)
        R.trace()
        R.check(close(RedhefferStar(AB, C), RedhefferStar(A, BC), 1e-9),
                "star:assoc", "star product is not associative")


# ------------------------------------------------------------------- layers
def run_layers(c, R):
    import legume as l
    from legume.utils import z_to_lind
    lat = l.Lattice("square")
    for n in range(0, 5 if c["th"] else 4):
        for ds in itertools.product((.1, .3, 1.), repeat=n):
            phc = l.PhotCryst(lat)
            for d in ds:
                phc.add_layer(d=d, eps_b=2.)
            b = [0.]
            for d in ds:
                b.append(b[-1] + d)
            zs = [-1e9, -1., 1e9, 7.5]
            for x in b:
                zs += [x, x - 1e-6, x + 1e-6, np.nextafter(x, 9.) + 1e-12,
                       x - 1e-12]
            zs += [(p + q) / 2 for p, q in zip(b, b[1:])]
            for z in zs:
                for zz in (float(z), np.float64(z)):
                    got = z_to_lind(phc, zz)
                    R.step()
                    exp = sum(1 for x in b if z > x)
                    R.state((ds, z))
                    R.trace()
                    R.check(got == exp, "layers", "layers %s, z=%r: index %s,"
                            " expected %d" % (ds, z, got, exp))
                    R.outcome((n, exp))


# -------------------------------------------------------------------- units
def run_units(c, R):
    import legume as l
    from legume.utils import from_freq_to_e
    from legume import constants as cs
    for nm, ref in (("e", sc.e), ("m_e", sc.m_e), ("epsilon_0", sc.epsilon_0),
                    ("c", sc.c), ("h", sc.h), ("hbar", sc.hbar),
                    ("h_eV_Hz", sc.h / sc.e)):
        R.check(abs(getattr(cs, nm) / ref - 1) < 1e-8, "constant:" + nm,
                "%s = %r, expected %r" % (nm, getattr(cs, nm), ref))
        R.step()
        R.trace()
        R.state(nm)
    for m, ex, ty in itertools.product((1., 2.5, 4.999, 5., 5.001, 9.),
                                       range(-10, 1),
                                       (float, np.float64, np.array)):
        a = float("%ge%d" % (m, ex))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            got = from_freq_to_e(ty(a))
        R.step()
        R.state((a, ty.__name__))
        exp = sc.h * sc.c / sc.e / a
        R.trace()
        R.check(abs(float(got) / exp - 1) < 1e-8, "units",
                "from_freq_to_e(%g) = %r" % (a, got))
        R.check(bool([x for x in w if x.category is UserWarning]) ==
                (a < 5e-8 or a > 5e-6), "units:warn",
                "from_freq_to_e(%g): warnings %s" % (a, [str(x.message)
                                                         for x in w]))
        R.outcome((a, len(w)))
    for a, ty in itertools.product((0, 0., -0., -1e-7, -1., -np.inf),
                                   (float, np.float64, np.array)):
        try:
            from_freq_to_e(ty(a))
        except ValueError:
            R.outcome("rejected")
        except Exception as e:
            R.fail("units:wrongexc", "from_freq_to_e(%r) raised %r instead of "
                   "a ValueError" % (ty(a), e))
        else:
            R.fail("units:accepted", "from_freq_to_e(%r) accepted" % ty(a))
        R.step()
        R.trace()
        R.state((a, ty.__name__, "bad"))


# ------------------------------------------------------- numerical gradients
def run_gradnum(c, R):
    from legume.utils import grad_num
    for shape, kind, st, dt in itertools.product(
            ((), (1, ), (3, ), (2, 2), (2, 1, 3), (0, )),
            ("lin", "sq", "mix"),
            ("default", "float", "np", "int", "array", "array0"),
            (float, int, np.float32)):
        size = int(np.prod(shape))
        x = (np.arange(size).reshape(shape) * 2 - 1).astype(dt)
        w = (np.arange(size).reshape(shape) + 1.)

        def f(y):
            y = np.asarray(y)
            if kind == "lin":
                return float(np.sum(w * y))
            if kind == "sq":
                return float(np.sum(w * y**2))
            return float(np.sum(w * y) * (1 + np.sum(y)))

        s = dict(default=None, float=1e-6, np=np.float64(1e-6), int=1,
                 array=1e-6 * (1 + np.arange(size).reshape(shape)),
                 array0=np.array(1e-6))[st]
        kw = {} if s is None else dict(step_size=s)
        h = np.broadcast_to(1e-7 if s is None else s, shape)
        x0 = x.copy()
        got = grad_num(f, x, **kw)
        R.step()
        R.state((shape, kind, st, dt.__name__))
        # forward difference of a quadratic is known exactly
        xd = x.astype(float)
        if kind == "lin":
            exp = w
        elif kind == "sq":
            exp = w * (2 * xd + h)
        else:
            exp = w * (1 + xd.sum()) + np.sum(w * xd) + w * h
        R.trace()
        R.check(np.shape(got) == shape and
                np.allclose(got, exp, rtol=1e-6, atol=1e-5), "gradnum",
                "grad_num(%s, shape %s, %s, %s) = %s, expected %s" %
                (kind, shape, st, dt.__name__, got, exp))
        R.check(np.array_equal(x, x0), "gradnum:mod", "argument modified")
        R.outcome((shape, kind))


def run_vjpnum(c, R):
    import autograd.numpy as npa
    from autograd import grad
    from autograd.extend import primitive, defvjp
    from legume.utils import vjp_maker_num
    sh = {"s": (3, ), "m": (2, 2), "o": (1, ), "z": ()}
    for names in itertools.product("smo", repeat=2):
        for inds in ((0, ), (1, ), (0, 1), (1, 0)):
            for out in ("scalar", "vector"):
                xs = [np.arange(int(np.prod(sh[n]))).reshape(sh[n]) * .5 + 1
                      for n in names]
                W = [np.cos(np.arange(x.size).reshape(x.shape) + 1.)
                     for x in xs]

                def raw(a, b):
                    u = np.sum(W[0] * a**2) + np.sum(W[1] * b**2)
                    v = np.sum(a) * np.sum(b)
                    return u + v if out == "scalar" else np.array([u, v, u])

                p = primitive(raw)
                steps = [1e-6, 2e-6][:len(inds)]
                defvjp(p, *vjp_maker_num(raw, list(inds), steps),
                       argnums=inds)
                co = 1. if out == "scalar" else np.array([.3, -2., 1.])
                cu = 1. if out == "scalar" else 1.3
                cv = 1. if out == "scalar" else -2.
                for i in inds:
                    got = grad(lambda *z: npa.sum(co * p(*z)), i)(*xs)
                    R.step()
                    exp = cu * 2 * W[i] * xs[i] + cv * np.sum(xs[1 - i])
                    R.state((names, inds, out, i))
                    R.trace()
                    R.check(np.shape(got) == xs[i].shape and
                            np.allclose(got, exp, rtol=1e-4, atol=1e-4),
                            "vjpnum", "numerical vjp %s arg %d of %s (%s): %s"
                            " expected %s" % (names, i, inds, out, got, exp))
                    R.outcome((names, i))


def run_getvalue(c, R):
    import autograd.numpy as npa
    from autograd import grad, elementwise_grad
    from legume.utils import get_value
    seen = []
    for x in (1., 2, 1j, np.float64(3.), np.array([1., 2.]), np.array(2.),
              None, "a", [1, 2], (3., ), np.array([[1j]])):
        R.state(repr(x))
        R.step()
        R.trace()
        y = get_value(x)
        R.check(type(y) is type(x) and np.array_equal(np.array(y, object),
                                                      np.array(x, object)),
                "getvalue", "get_value(%r) is %r" % (x, y))
    for x in (2., np.array([1., 3.]), np.array([[1.], [2.]])):
        def f(y):
            v = get_value(y)
            seen.append(v)
            z = get_value(y * y + 1)
            R.check(type(v) is type(x) or isinstance(v, np.ndarray),
                    "getvalue:type", "value of a traced variable is %r" % v)
            R.check(close(v, x) and close(z, np.asarray(x)**2 + 1),
                    "getvalue:val", "value of a traced variable")
            return npa.sum(y**2 * get_value(y))

        g = grad(f)(x)
        R.step(2)
        R.trace()
        # a detached value does not carry a derivative
        R.check(close(g, 2 * np.asarray(x)**2), "getvalue:grad",
                "get_value does not detach: %s" % g)


# ------------------------------------------------------------------ backends
def run_switch(c, R):
    import legume as l
    import sys
    B = sys.modules["legume.backend"]
    al = ["numpy", "autograd", "unknown", "Numpy", None, ""]
    obj = B.backend
    import autograd
    known = {}

    def differentiable(fn):
        """Does fn (an exponential) propagate derivatives? (remembered)"""
        if fn not in known:
            ok = abs(fn(.3) - np.exp(.3)) < 1e-14
            try:
                d = autograd.grad(lambda x: fn(x))(.3)
                known[fn] = bool(ok and abs(d - np.exp(.3)) < 1e-12)
            except Exception:
                known[fn] = False if ok else None
        return known[fn]

    for n in range(0, 7 if c["th"] else 5):
        for seq in itertools.product(range(len(al) if n < 5 else 3), repeat=n):
            l.set_backend("numpy")
            cur = "numpy"
            for i in seq:
                nm = al[i]
                try:
                    l.set_backend(nm)
                    R.check(nm in ("numpy", "autograd"), "switch:accepted",
                            "backend %r accepted" % nm)
                    cur = nm
                except ValueError:
                    R.check(nm not in ("numpy", "autograd"),
                            "switch:rejected", "backend %r rejected" % nm)
                R.step()
                # seen through every way to reach the backend
                R.check(all(differentiable(b.exp) is (cur == "autograd")
                            for b in (obj, B.backend, l.backend)),
                        "switch:state", "after %s the backend is %r, expected "
                        "%s" % ([al[j] for j in seq], obj, cur))
            R.state(seq)
            R.trace()
            R.outcome(cur)
    l.set_backend("numpy")


def _arrays():
    M = np.array([[2., -1., .3], [.5, 1., 0.], [-.2, .7, 3.]])
    return dict(
        s=[0., 1.5, -2., 3, 1e-12],
        v=[np.array([]), np.array([2.]), np.array([3., -1., 2., -1.]),
           np.array([0., 1., 2.])],
        m=[M, M[:2], M[:, :1], np.zeros((0, 3))],
        c=[np.array([1 + 2j, -.5j, 0, 2.]), M + 1j * M.T])


def run_backend(c, R):
    """Every function of both backends against numpy itself."""
    import legume as l
    import scipy.sparse as sp
    A = _arrays()
    s, v, m, z = A["s"], A["v"], A["m"], A["c"]
    al = s + v + m + z
    real = s + v + m
    full = v[1:] + m[:3]
    M = m[0]
    H = M + M.T + 1j * (M - M.T)
    X3 = [np.array([1., 2., 3.]), np.array([-.5, 0., 2.])]
    U = {}  # name -> (reference, list of (args, kwargs))

    def one(names, args):
        for n in names.split():
            U[n] = (getattr(np, n), [((a, ), {}) for a in args])

    one("exp sin cos tan tanh square abs real imag conj", al)
    one("round sort argsort", full)
    one("transpose shape size", m + z + v)
    one("argwhere unique", v + m[:3])
    one("max min amax var", full)
    one("diag triu eye", [])
    one("array", al + [[1., 2.], [[1, 2], [3, 4]], (1j, 2)])
    U["sum"] = (np.sum, [((a, ), {}) for a in al] + [
        ((a, ), dict(axis=k)) for a in m for k in (0, 1, -1)])
    for n in ("max", "min", "amax", "var"):
        U[n][1].extend(((a, ), dict(axis=k)) for a in m[:3] for k in (0, 1))
    U["sqrt"] = (np.sqrt, [((a, ), {}) for a in
                           [0., 2., 1e-14] + [abs(x) for x in v] + z])
    U["bessel1"] = (scipy.special.j1, [((a, ), {}) for a in real])
    for n in ("stack", "hstack", "vstack", "concatenate"):
        U[n] = (getattr(np, n), [((t, ), {}) for t in (
            (v[2], v[2]), [v[2], z[0]], (m[0], m[0]), (m[0], z[1], m[0]))])
    U["hstack"][1].extend([(((v[0], v[1], v[2]), ), {}),
                           (((m[0], m[2]), ), {})])
    U["vstack"][1].append((((m[0], m[1]), ), {}))
    U["concatenate"][1].extend([(((m[0], m[1]), ), dict(axis=0)),
                                (((m[0], m[2]), ), dict(axis=1)),
                                (((v[0], v[2]), 0), {})])
    U["stack"][1].append((((m[0], m[0]), ), dict(axis=1)))
    U["reshape"] = (np.reshape, [((v[2], (2, 2)), {}), ((m[0], (-1, )), {}),
                                 ((m[1], (3, 2)), {}), ((v[0], (0, 2)), {})])
    U["roll"] = (np.roll, [((a, k), {}) for a in v for k in (-1, 0, 1, 5)] + [
        ((m[0], k), dict(axis=x)) for k in (1, -1) for x in (0, 1)])
    U["where"] = (np.where, [((a > 0, ), {}) for a in v + m] + [
        ((a > 0, a, -2 * a), {}) for a in v + m] + [((v[2] > 0, 1., 1j), {})])
    xp, yp = np.array([0., 1., 1.5, 3.]), np.array([1., -1., 2., .5])
    U["interp"] = (np.interp, [((np.array(x), xp, yp), {}) for x in (
        [.5], [0., 1., 3.], [-1., 9.], [2.9, .2, 1.5, 1.2], [])])
    U["full"] = (np.full, [((3, 2.), {}), (((2, 2), 1j), {}), ((0, 1), {})])
    U["divide"] = (np.divide, [((a, 2.), {}) for a in al] +
                   [((v[2], v[2]), {})])
    U["power"] = (np.power, [((np.abs(a), k), {}) for a in real
                             for k in (2, .5, 0)])
    U["norm"] = (np.linalg.norm, [((a, ), {}) for a in v[1:] + z[:1]] + [
        ((a, ), dict(axis=k)) for a in m[:3] for k in (0, 1)])
    U["dot"] = (np.dot, [((M, M), {}), ((M, X3[0]), {}), ((X3[0], M), {}),
                         ((X3[0], X3[1]), {}), ((z[1], M), {}), ((2., M), {}),
                         ((m[1], m[0]), {}), ((H, X3[0]), {})])
    U["matmul"] = (np.matmul, [((M, M), {}), ((M, X3[0]), {}),
                               ((X3[0], M), {}), ((z[1], M), {}),
                               ((m[1], m[0]), {}), ((H, H), {})])
    U["cross"] = (np.cross, [((X3[0], X3[1]), {}), ((M, M[::-1]), {}),
                             ((X3[1], X3[0]), {})])
    U["outer"] = (np.outer, [((a, b), {}) for a in v + z[:1]
                             for b in v + z[:1]])
    U["inv"] = (np.linalg.inv, [((a, ), {}) for a in (M, H, M[:1, :1])])
    U["diag"] = (np.diag, [((a, ), {}) for a in v + m[:1] + z])
    U["triu"] = (np.triu, [((M, k), {}) for k in (-1, 0, 1, 2)] +
                 [((H, ), {})])
    U["eye"] = (np.eye, [((k, ), {}) for k in (0, 1, 3)] + [((2, 3), {})])
    U["ones"] = (np.ones, [((k, ), {}) for k in (0, 3, (2, 2), ())])
    U["zeros"] = (np.zeros, [((k, ), {}) for k in (0, 3, (2, 2), ())] +
                  [((3, ), dict(dtype=complex))])
    U["linspace"] = (np.linspace, [((0., 1., k), {}) for k in (1, 2, 5)])
    U["arange"] = (np.arange, [((k, ), {}) for k in (0, 4)] +
                   [((1., 2., .3), {})])
    S_ = sp.coo_matrix(M * (np.abs(M) > .4))
    U["spdot"] = (lambda a, b: a.toarray().dot(b),
                  [((t(S_), b), {}) for t in (sp.coo_matrix, sp.csr_matrix)
                   for b in (M, X3[0], z[1], M[:, :1])])
    U["round"][1].append(((v[2] / 3, ), dict(decimals=2)))
    for bk in ("numpy", "autograd"):
        l.set_backend(bk)
        bd = l.backend
        for n, (ref, calls) in sorted(U.items()):
            fn = getattr(bd, n)
            for i, (a, k) in enumerate(calls):
                R.state((bk, n, i))
                with np.errstate(all="ignore"):
                    exp = ref(*a, **k)
                    got = fn(*a, **k)
                R.step()
                R.trace()
                if isinstance(exp, tuple):
                    ok = len(exp) == len(got) and all(
                        np.array_equal(p, q) for p, q in zip(exp, got))
                else:
                    e, g = np.asarray(exp), np.asarray(got)
                    ok = e.shape == g.shape and np.allclose(
                        e, g, rtol=1e-13, atol=1e-14, equal_nan=True) and \
                        np.iscomplexobj(e) == np.iscomplexobj(g)
                R.check(ok, "backend:" + n, "%s backend, %s(%s, %s) = %s, "
                        "expected %s" % (bk, n, a, k, got, exp))
                R.outcome((n, i))
        # decompositions: defining equations
        for i, h in enumerate((M + M.T, H, np.diag([1., 1., 2.]),
                               np.array([[3.]]), np.zeros((2, 2)))):
            w, u = bd.eigh(h)
            R.step()
            R.check(np.all(np.diff(w) >= -1e-12) and
                    close(h.dot(u), u * w[None, :], 1e-10) and
                    close(np.conj(u.T).dot(u), np.eye(len(w)), 1e-10),
                    "backend:eigh", "%s eigh of matrix %d" % (bk, i))
            R.trace()
        for i, h in enumerate((M, H, M + 1j * M.T, np.diag([1., 2.]))):
            w, u = bd.eig(h)
            R.step()
            R.check(close(h.dot(u), u * w[None, :], 1e-10) and
                    np.linalg.matrix_rank(u) == len(w), "backend:eig",
                    "%s eig of matrix %d" % (bk, i))
            R.trace()
        G = np.add.outer(np.arange(8.), np.arange(8.)) / 9 + np.diag(
            np.arange(8.)**1.5)
        for k, sg in itertools.product((1, 3, 5), (None, 2.2)):
            kw = dict(k=k, sigma=sg)
            w, u = bd.eigsh(G, **kw)
            R.step()
            allw = np.linalg.eigvalsh(G)
            d = np.abs(allw) if sg is None else -np.abs(allw - sg)
            exp = np.sort(allw[np.argsort(-d)[:k]])
            R.check(close(np.sort(w), exp, 1e-8) and
                    close(G.dot(u), u * w[None, :], 1e-7), "backend:eigsh",
                    "%s eigsh k=%d sigma=%s" % (bk, k, sg))
            R.trace()
        R.check(bd.newaxis is None and np.dtype(bd.int) == np.int64 and
                np.dtype(bd.float) == np.float64 and
                np.dtype(bd.complex) == np.complex128,
                "backend:types", bk)
    l.set_backend("numpy")
    # functions of either backend that are not exercised
    miss = [n for n in dir(type(l.backend))
            if not n.startswith("_") and n not in U and n not in
            ("int", "float", "complex", "newaxis", "is_array", "eigh", "eig",
             "eigsh", "toeplitz_block", "extend", "fsolve_D22")]
    R.count("backend functions compared", len(U))
    R.count("backend functions not compared: %s" % miss, len(miss))


def run_case(c, R):
    globals()["run_" + c["kind"]](c, R)
