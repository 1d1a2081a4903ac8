"""C17: optimiser call histories against reference recursions."""
import io
import itertools
import contextlib
import numpy as np

PROPERTY = "C17"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "start points are 1-D arrays; the first evaluation is at the start point "
    "as given (documented: bounds are applied after the update step)",
    "L-BFGS-B iterates are those of scipy.optimize (a trusted component) "
    "called independently with the documented options",
]
BOUNDS = {
    "quick": "6 objectives x 3 start points x 8 bound forms x 2 args x "
             "pass_self x callback x Nepochs 0..5 (25 for some) x 3 step/beta settings for "
             "Adam, the same without steps for L-BFGS (Nepochs 1, 3, 60); all "
             "histories of <= 3 calls over 8 operations on one object; 12 "
             "rejected bound forms",
    "thorough": "Nepochs up to 60, histories of 4 calls, 5 step settings",
}


def objectives(npa):
    A = np.array([1., 4., .5])

    def quad(p, *a):
        s = a[0] if a and not hasattr(a[0], "iteration") else 1.
        return s * npa.sum(A[:p.size] * (p - np.array([.3, -1., 2.])[:p.size])
                           ** 2)

    def rosen(p, *a):
        s = a[0] if a and not hasattr(a[0], "iteration") else 1.
        q = npa.concatenate((p, p[:1] * 0 + .5))
        return s * npa.sum(5. * (q[1:] - q[:-1]**2)**2 + (1 - q[:-1])**2)

    def lin(p, *a):
        s = a[0] if a and not hasattr(a[0], "iteration") else 1.
        return s * npa.sum(p * np.array([1., -2., .5])[:p.size])

    def trig(p, *a):
        s = a[0] if a and not hasattr(a[0], "iteration") else 1.
        return s * npa.sum(npa.sin(3 * p) + .2 * p**2)

    def const(p, *a):
        return 0. * npa.sum(p) + 3.

    def sched(p, *a):
        """depends on the optimiser state (pass_self)."""
        it = a[-1].iteration if a and hasattr(a[-1], "iteration") else 0
        return (1 + it) * npa.sum((p - .7)**2)
    return dict(quad=quad, rosen=rosen, lin=lin, trig=trig, const=const,
                sched=sched)


STARTS = [[.5], [.2, -.4], [1., -1., .3]]


def bound_forms(n):
    """(name, argument, lower, upper)."""
    out = [("none", None, [-np.inf] * n, [np.inf] * n)]
    out.append(("list", [-1.2, 1.2], [-1.2] * n, [1.2] * n))
    out.append(("tight", [-1., 1.], [-1.] * n, [1.] * n))
    lo = [-1., -1.05, .1][:n]
    hi = [.55, .1, 1.5][:n]
    out.append(("tuples", list(zip(lo, hi)), lo, hi))
    out.append(("half", [(None, hi[i]) if i % 2 == 0 else (lo[i], None)
                         for i in range(n)],
                [-np.inf if i % 2 == 0 else lo[i] for i in range(n)],
                [hi[i] if i % 2 == 0 else np.inf for i in range(n)]))
    out.append(("pair", (-1.2, 1.2), [-1.2] * n, [1.2] * n))
    out.append(("upper", [None, .45], [-np.inf] * n, [.45] * n))
    out.append(("lower", [-.15, None], [-.15] * n, [np.inf] * n))
    return out


def val(x):
    while hasattr(x, "_value"):
        x = x._value
    return x


class Rec:
    """wraps an objective; records every evaluation."""

    def __init__(self, fn):
        self.fn, self.log = fn, []

    def __call__(self, p, *a):
        v = self.fn(p, *a)
        opt = a[-1] if a and hasattr(a[-1], "iteration") else None
        self.log.append((np.array(val(p), dtype=float), float(val(v)),
                         tuple("self" if hasattr(x, "iteration") else x
                               for x in a),
                         None if opt is None else opt.iteration))
        return v


def grads(fn, p, a):
    from autograd import value_and_grad
    return value_and_grad(fn)(np.array(p, dtype=float), *a)


class Fake:
    def __init__(self, it):
        self.iteration = it


def ref_adam(fn, p0, n, lo, hi, step, b1, b2, args, pass_self):
    p = np.array(p0, dtype=float)
    m = v = np.zeros(p.size)
    pts, vals = [], []
    for t in range(1, n + 1):
        a = tuple(args) + ((Fake(t), ) if pass_self else ())
        f, g = grads(fn, p, a)
        pts.append(p.copy())
        vals.append(float(f))
        m = b1 * m + (1 - b1) * g
        v = b2 * v + (1 - b2) * g * g
        if t < n:
            p = p - step * (m / (1 - b1**t)) / (np.sqrt(v / (1 - b2**t)) +
                                                1e-8)
        p = np.minimum(np.maximum(p, lo), hi)
    return pts, vals, p


STEPS = [dict(), dict(step_size=.3), dict(step_size=.1, beta1=.5, beta2=.7),
         dict(step_size=1e-3, beta1=0., beta2=.9),
         dict(step_size=.05, beta1=.9, beta2=.5)]


def close(a, b, tol=1e-10):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


def one_adam(R, opt, rec, fn, p0, n, bnd, st, args, ps, cb, disp, key="adam"):
    _, barg, lo, hi = bnd
    lo, hi = np.array(lo), np.array(hi)
    p = np.array(p0, dtype=float)
    keep = p.copy()
    bkeep = repr(barg)
    seen = []
    kw = dict(Nepochs=n, bounds=barg, args=args, disp_p=disp, pass_self=ps,
              **st)
    if cb:
        kw["callback"] = lambda o: seen.append(
            (o is opt, o.iteration, np.array(o.params), list(o.of_list)))
    rec.log.clear()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ret = opt.adam(p, **kw)
    R.step(max(n, 1))
    R.trace()
    s = dict(dict(step_size=1e-2, beta1=.9, beta2=.999), **st)
    pts, vals, pf = ref_adam(fn, p0, n, lo, hi, s["step_size"], s["beta1"],
                             s["beta2"], args, ps)
    R.check(np.array_equal(p, keep), key + ":pstart",
            "the start point %s became %s" % (keep, p))
    R.check(repr(barg) == bkeep, key + ":bounds_arg", "bounds modified")
    R.check(len(rec.log) == n, key + ":evals",
            "%d evaluations in %d epochs" % (len(rec.log), n))
    for i, (q, f, a, it) in enumerate(rec.log[:n]):
        if not R.check(close(q, pts[i]), key + ":iterate",
                       "epoch %d evaluated at %s, the recursion is at %s" %
                       (i + 1, q, pts[i])):
            break
        R.check(i == 0 or (np.all(q >= lo) and np.all(q <= hi)),
                key + ":bounds", "epoch %d at %s outside the bounds" %
                (i + 1, q))
        R.check(a == tuple(args) + (("self", ) if ps else ()), key + ":args",
                "objective got %s" % (a, ))
        R.check(it is None or it == i + 1, key + ":iteration",
                "iteration %s seen in epoch %d" % (it, i + 1))
    R.check(isinstance(ret, tuple) and len(ret) == 2, key + ":ret",
            "returned %s" % (type(ret), ))
    R.check(close(ret[0], pf), key + ":final", "returned %s, expected %s" %
            (ret[0], pf))
    R.check(close(opt.params, pf), key + ":params", "params %s, expected %s" %
            (opt.params, pf))
    R.check(close(ret[1], vals) and close(opt.of_list, vals), key + ":of",
            "objective history %s, expected %s" % (ret[1], vals))
    R.check(all(isinstance(v, (float, np.floating, np.ndarray)) for v in
                ret[1]), key + ":of_type", "history of %s" % ret[1])
    R.check(opt.iteration == n, key + ":count", "iteration %s after %d epochs"
            % (opt.iteration, n))
    txt = out.getvalue().split("\n")[:-1]
    R.check(len(txt) == n, key + ":disp", "%d lines for %d epochs" %
            (len(txt), n))
    for i, l in enumerate(txt[:n]):
        R.check("Epoch: %4d/%4d" % (i + 1, n) in l and
                "Objective: %4e" % vals[i] in l and
                ("Parameters" in l) == bool(disp), key + ":disp",
                "epoch %d displayed as %r" % (i + 1, l))
    if cb:
        R.check(len(seen) == n, key + ":cb", "%d callbacks in %d epochs" %
                (len(seen), n))
        for i, (same, it, q, ofs) in enumerate(seen[:n]):
            nxt = pts[i + 1] if i + 1 < n else pf
            R.check(same and it == i + 1 and close(q, nxt) and
                    close(ofs, vals[:i + 1]), key + ":cb",
                    "callback %d saw iteration %s params %s history %s" %
                    (i + 1, it, q, ofs))
    R.outcome((tuple(np.round(pf, 8)), len(vals)))


def one_lbfgs(R, opt, rec, fn, p0, n, bnd, args, ps, cb, res, key="lbfgs",
              sched=False):
    from scipy.optimize import minimize
    name, barg, lo, hi = bnd
    lo, hi = np.array(lo), np.array(hi)
    p = np.array(p0, dtype=float)
    keep = p.copy()
    seen = []
    kw = dict(Nepochs=n, bounds=barg, args=args, pass_self=ps, res=res)
    if cb:
        kw["callback"] = lambda o: seen.append(
            (o is opt, o.iteration, np.array(o.params), list(o.of_list)))
    rec.log.clear()
    with contextlib.redirect_stdout(io.StringIO()):
        ret = opt.lbfgs(p, **kw)
    R.step(len(rec.log))
    R.trace()
    R.check(np.array_equal(p, keep), key + ":pstart",
            "the start point %s became %s" % (keep, p))
    R.check(isinstance(ret, tuple) and len(ret) == (3 if res else 2),
            key + ":ret", "returned %d items with res=%s" % (len(ret), res))
    x, of = np.asarray(ret[0]), ret[1]
    feasible = np.all(p >= lo) and np.all(p <= hi)
    R.check(np.all(x >= lo - 1e-12) and np.all(x <= hi + 1e-12),
            key + ":bounds", "returned %s outside [%s, %s]" % (x, lo, hi))
    for q, f, a, it in rec.log:
        R.check(a == tuple(args) + (("self", ) if ps else ()), key + ":args",
                "objective got %s" % (a, ))
    for q, f, a, it in rec.log[1:]:
        R.check(np.all(q >= lo - 1e-12) and np.all(q <= hi + 1e-12),
                key + ":bounds", "evaluated at %s outside the bounds" % q)
    R.check(len(rec.log) and close(rec.log[0][0], p), key + ":first",
            "first evaluation is not at the start point")
    if len(of):
        R.check(close(of[0], rec.log[0][1]), key + ":of0",
                "history starts with %s, f(start) = %s" % (of[0],
                                                           rec.log[0][1]))
    R.check(len(of) == opt.iteration + 1 and opt.iteration <= max(n, 1) and
            close(of, opt.of_list), key + ":count",
            "%d entries in the history after %d iterations of at most %d" %
            (len(of), opt.iteration, n))
    if sched:
        return
    f = lambda q: float(fn(np.array(q, dtype=float), *(tuple(args) + (
        (Fake(0), ) if ps else ()))))
    if feasible:
        R.check(f(x) <= f(p) + 1e-12, key + ":worse",
                "f(returned) = %s > f(start) = %s" % (f(x), f(p)))
        R.check(np.all(np.diff(of) <= 1e-9 * (1 + np.abs(of[:-1]))),
                key + ":monotone", "history %s increases" % of)
    R.check(close(of[-1], f(x), 1e-8) or not feasible or len(of) == 1,
            key + ":last",
            "last history entry %s, f(returned) %s" % (of[-1], f(x)))
    # the same problem given to scipy directly
    r = minimize(lambda q, *a: grads(fn, q, tuple(args) + (
        (Fake(0), ) if ps else ())), np.array(p0, dtype=float),
        method="L-BFGS-B", jac=True, bounds=None if barg is None else
        list(zip([None if v == -np.inf else v for v in lo],
                 [None if v == np.inf else v for v in hi])),
        options=dict(ftol=1e-8, gtol=1e-5, maxiter=n, maxfun=15000, maxls=20,
                     maxcor=10))
    R.check(close(x, r.x, 1e-7), key + ":scipy", "returned %s, scipy gives %s"
            % (x, r.x))
    R.check(opt.iteration == r.nit, key + ":nit", "%d iterations, scipy %d" %
            (opt.iteration, r.nit))
    if opt.iteration:
        R.check(close(opt.params, x, 1e-9), key + ":params",
                "params %s differ from the returned %s" % (opt.params, x))
    if res:
        R.check(close(ret[2].x, x) and hasattr(ret[2], "nit"), key + ":res",
                "third item is not the optimisation result")
    if cb:
        R.check(len(seen) == opt.iteration, key + ":cb",
                "%d callbacks, %d iterations" % (len(seen), opt.iteration))
        for i, (same, it, q, ofs) in enumerate(seen):
            R.check(same and it == i + 1 and close(ofs, of[:i + 2]) and
                    close(f(q), of[i + 1], 1e-9), key + ":cb",
                    "callback %d: iteration %s, f(params) %s, history %s" %
                    (i + 1, it, f(q), ofs))
    R.outcome((tuple(np.round(x, 6)), len(of)))


REJECT = [5, [0.], [0., 1., 2.], [(0., 1.)], [(0., 1.), (0., 1.), (0., 1.)],
          [(0., 1.), (0., )], [(0., 1., 2.), (0., 1.)], "ab c", 0.5,
          [(0., 1.), 3.], {}, [[0., 1.], [0., 1.], [0., 1.]]]


def reject(R, legume, npa):
    fn = objectives(npa)["quad"]
    from legume.minimize import Minimize
    for b in REJECT:
        for m in ("adam", "lbfgs"):
            rec = Rec(fn)
            o = Minimize(rec)
            R.state(("reject", repr(b), m))
            R.step()
            p = np.array([.2, .4])
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    getattr(o, m)(p, Nepochs=2, bounds=b)
                R.fail("reject:" + m, "bounds %r accepted" % (b, ))
            except ValueError:
                R.trace()
            R.check(not rec.log, "reject:eval", "objective evaluated before "
                    "rejecting bounds %r" % (b, ))


# operations of a history on one object
def ops(n):
    b = bound_forms(2)
    return [
        ("adam", 3, b[0], STEPS[1], (), False, True),
        ("adam", 1, b[3], STEPS[0], (), False, False),
        ("adam", 4, b[3], STEPS[2], (2., ), False, False),
        ("adam", 3, b[1], STEPS[1], (), True, True),
        ("lbfgs", 30, b[0], None, (), False, True),
        ("lbfgs", 2, b[3], None, (2., ), False, False),
        ("lbfgs", 30, b[1], None, (), True, False),
        ("bad", ),
    ]


def cases(tier):
    out = [dict(kind="reject")]
    for o in ("quad", "rosen", "lin", "trig", "const", "sched"):
        for s in range(3):
            out.append(dict(kind="adam", of=o, start=s, tier=tier))
            out.append(dict(kind="lbfgs", of=o, start=s, tier=tier))
    d = 3 if tier == "quick" else 4
    for f in range(8):
        for o in ("quad", "rosen"):
            out.append(dict(kind="hist", first=f, of=o, depth=d))
    return out


def run_case(case, R):
    import legume
    import autograd.numpy as npa
    from legume.minimize import Minimize
    if case["kind"] == "reject":
        return reject(R, legume, npa)
    fn = objectives(npa)[case["of"]]
    quick = case.get("tier", "quick") == "quick"
    if case["kind"] == "adam":
        st = STARTS[case["start"]]
        ns = list(range(6)) + [25] if quick else list(range(8)) + [15, 60]
        for n, b, s, a, ps, cb, d in itertools.product(
                ns, bound_forms(len(st)), STEPS[:3] if quick else STEPS,
                ((), (2., )), (False, True), (False, True), (False, True)):
            if d and (cb or a):
                continue
            for start in (st, [3.] * len(st)):
                if n > 5 and (a or cb or d or b[0] not in ("none", "half")):
                    continue
                if start is not st and (d or cb or n > 3):
                    continue
                rec = Rec(fn)
                R.state((n, b[0], str(s), a, ps, cb, d, tuple(start)))
                one_adam(R, Minimize(rec), rec, fn, start, n, b, s, a, ps, cb,
                         d)
    elif case["kind"] == "lbfgs":
        st = STARTS[case["start"]]
        for n, b, a, ps, cb, res in itertools.product(
                (1, 3, 60) if quick else (0, 1, 2, 3, 7, 60),
                bound_forms(len(st)), ((), (2., )), (False, True),
                (False, True), (False, True)):
            if case["of"] == "lin" and not np.all(np.isfinite(b[2] + b[3])):
                continue        # unbounded below
            for start in (st, [3.] * len(st)):
                rec = Rec(fn)
                R.state((n, b[0], a, ps, cb, res, tuple(start)))
                one_lbfgs(R, Minimize(rec), rec, fn, start, n, b, a, ps, cb,
                          res, sched=case["of"] == "sched" and ps)
    else:
        P = ops(2)
        for tail in itertools.product(range(len(P)), repeat=case["depth"] -
                                      1):
            rec = Rec(fn)
            opt = Minimize(rec)
            kept = []
            for i, k in enumerate((case["first"], ) + tail):
                o = P[k]
                start = [.2, -.4] if (i + k) % 2 else [.5, .05]
                R.state((case["of"], case["first"], tail[:i]))
                if o[0] == "bad":
                    try:
                        with contextlib.redirect_stdout(io.StringIO()):
                            opt.adam(np.array(start), bounds=[1., 2., 3.],
                                     Nepochs=2)
                        R.fail("hist:reject", "bad bounds accepted")
                    except ValueError:
                        pass
                elif o[0] == "adam":
                    one_adam(R, opt, rec, fn, start, *o[1:], False,
                             key="hist:adam")
                    kept.append((opt.of_list, list(opt.of_list), opt.params,
                                 np.array(opt.params)))
                else:
                    one_lbfgs(R, opt, rec, fn, start, o[1], o[2], o[4], o[5],
                              o[6], True, key="hist:lbfgs")
                    kept.append((opt.of_list, list(opt.of_list), opt.params,
                                 np.array(opt.params)))
            for l, c, p, q in kept:
                R.check(list(l) == c and np.array_equal(p, q), "hist:alias",
                        "a result returned earlier was changed later")
