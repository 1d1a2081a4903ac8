"""C05: slab guided modes against the Sturm oscillation count."""
import itertools
import numpy as np
from vk import slab

PROPERTY = "C05"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "completeness is required when consecutive modes are further apart than "
    "the documented search step, and outside the documented tolerance at the "
    "two ends of the search interval; closer pairs are counted as skipped",
    "field coefficients are compared where the reference field can be joined "
    "to 1e-8 (no catastrophic growth through thick cladding-like layers)",
]
BOUNDS = {
    "quick": "all stacks of 1-2 layers over 4 (thickness,eps) letters plus 12 "
             "single layers, all 3-layer stacks over 3 letters, x 4 cladding "
             "pairs x TE/TM x 4 wavevector arrays (ascending, nearly equal, duplicated, descending) x n_modes in {1,2,4}",
    "thorough": "all stacks of 1-4 layers over 5 letters x 6 cladding pairs x "
                "TE/TM x 6 wavevector arrays x n_modes in {1,2,3,5}",
}
LET = [(.2, 12.), (.35, 4.), (.15, 1.), (.4, 2.2), (.1, 9.)]
ONE = [(d, e) for d in (.05, .3, .7, 1.6) for e in (1.5, 4., 12.)]
CL = [(1., 1.), (2.1, 1.), (1., 2.1), (2.1, 2.1), (4., 1.), (1.3, 5.)]
GARR = {
    "asc": list(np.round(np.linspace(.3, 16., 18), 6)),
    "near": [.7, .7 + 1e-3, 2., 2.0004, 2.0013, 2.0014, 2.0014 + 2e-6,
             9. - 1e-5, 9.],
    "dup0": [0., 0., 1e-4, .5, .5, 2., 2., 2., 5., 5. + 1e-12, 9.],
    "desc": [14., 9., 4., 1.],
    "unsorted": [6., 1., 12., 3., 12.],
    "one": [7.],
}


def cases(tier):
    th = tier == "thorough"
    stacks = [[x] for x in ONE]
    stacks += [[x] for x in LET]
    stacks += [list(x) for x in itertools.product(LET[:5 if th else 4],
                                                  repeat=2)]
    stacks += [list(x) for x in itertools.product(LET[:5 if th else 3],
                                                  repeat=3)]
    if th:
        stacks += [list(x) for x in itertools.product(LET[:4], repeat=4)]
    out = []
    for s in stacks:
        for c in CL[:6 if th else 4]:
            for pol in ("TE", "TM"):
                out.append(dict(layers=s, clad=c, pol=pol,
                                nm=[1, 2, 3, 5] if th else [1, 2, 4],
                                garr=list(GARR)[:6 if th else 4],
                                step=1e-2))
    for c in CL[:4]:
        for pol in ("TE", "TM"):
            for st in (1e-3, 5e-2):
                for tol in (1e-4, 1e-10):
                    out.append(dict(layers=[(.3, 12.)], clad=c, pol=pol,
                                    nm=[1, 2, 4], garr=["asc", "unsorted"],
                                    step=st, tol=tol))
                    out.append(dict(layers=[(.2, 4.), (.3, 12.)], clad=c,
                                    pol=pol, nm=[1, 2, 4],
                                    garr=["asc", "unsorted"], step=st,
                                    tol=tol))
    # Thick evanescent layers above, below and between the guiding ones
    for s in [[(.3, 12.), (2., 3.)], [(2., 2.), (.3, 12.)],
              [(1.5, 1.), (.2, 12.), (2., 2.1)],
              [(.2, 12.), (2.5, 1.), (.25, 9.)],
              [(1., 2.), (.3, 9.), (1., 1.), (.2, 12.), (1.5, 3.)],
              [(4., 1.), (.3, 12.)], [(.3, 12.), (4., 1.5)],
              [(1e-6, 5.), (.3, 12.), (0., 3.), (.2, 4.)]]:
        for c in CL[:6 if th else 3]:
            for pol in ("TE", "TM"):
                out.append(dict(layers=s, clad=c, pol=pol, nm=[1, 3],
                                garr=["asc", "desc", "unsorted"], step=1e-2))
    # Permittivities below one: modes may be faster than light in vacuum
    for c in [(.25, .25), (.4, 1.), (1., .3), (.04, .6)]:
        for s in [[(.5, 3.)], [(.3, 12.)], [(.3, .5)], [(.3, 2.), (.2, .3)],
                  [(.2, .5), (.3, 5.), (.4, 1.2)]]:
            for pol in ("TE", "TM"):
                for st in (1e-2, 1e-3) if th else (1e-2,):
                    out.append(dict(layers=s, clad=c, pol=pol, nm=[1, 2, 3],
                                    garr=list(GARR), step=st))
    # The polarisation in every accepted spelling
    for s in stacks[:3] + stacks[-3:]:
        for pol, spell in (("TE", "te"), ("TE", "Te"), ("TM", "tm"),
                           ("TM", "tM")):
            out.append(dict(layers=s, clad=CL[1], pol=pol, spell=spell,
                            nm=[1, 4], garr=["asc", "unsorted"], step=1e-2))
    return out


def run_case(case, R):
    from legume.gme import slab_modes as sm
    lay, cl, pol = case["layers"], case["clad"], case["pol"]
    eps = [cl[0]] + [e for _, e in lay] + [cl[1]]
    d = [x for x, _ in lay]
    step, tol = case["step"], case.get("tol", 1e-10)
    ea, da = np.array(eps, float), np.array(d, float)
    memo = {}

    def ref(g):
        gv = max(g, 1e-4)
        if gv not in memo:
            ub = gv / np.sqrt(max(eps[0], eps[-1])) * (1 - tol)
            lb = gv / np.sqrt(max(eps[1:-1])) * (1 + tol)
            ms = slab.modes(gv, eps, d, pol, max(case["nm"]) + 1)
            amb = None
            if ms and lb >= ms[0] * (1 - 1e-9):
                amb = "lower"
            if any(abs(m - ub) < 1e-7 * ub for m in ms):
                amb = "cutoff"
            ms = [m for m in ms if m < ub]
            if len(ms) > 1 and np.min(np.diff(ms)) < step * 1.01:
                amb = "close pair"
            memo[gv] = (ms, amb)
        return memo[gv]

    for gname in case["garr"]:
        garr = np.array(GARR[gname], float)
        for nm in case["nm"]:
            keep = garr.copy()
            oms, co = sm.guided_modes(garr, ea, da, n_modes=nm, step=step,
                                      tol=tol, pol=case.get("spell", pol))
            R.step()
            R.check(np.array_equal(garr, keep), "argument modified", "")
            R.check(len(oms) == len(garr) == len(co), "length", "")
            for g, om, c in zip(garr, oms, co):
                ms, amb = ref(g)
                R.state((tuple(eps), tuple(d), pol, nm, float(g), step, tol))
                if amb:
                    R.count("skipped " + amb)
                    continue
                ms = ms[:nm]
                R.trace()
                R.outcome((len(ms), round(sum(ms), 6)))
                if not R.check(len(om) == len(ms) == len(c), "number of modes",
                               "g=%g n_modes=%d: got %s expected %s" %
                               (g, nm, list(om), ms)):
                    continue
                ok = all(abs(a - b) < 1e-8 * max(1, b)
                         for a, b in zip(om, ms))
                if not R.check(ok, "frequency", "g=%g: got %s expected %s" %
                               (g, list(om), ms)):
                    continue
                for w, AB in zip(om, c):
                    fields(R, float(w), max(g, 1e-4), eps, d, pol, AB)


def fields(R, w, g, eps, d, pol, AB):
    m = slab.Mode(w, g, eps, d, pol)
    if m.mismatch > 1e-6:
        R.count("field skipped (ill conditioned)")
        return
    AB = np.asarray(AB).reshape(len(eps), 2)
    ch = [np.sqrt(complex(e * w * w - g * g)) for e in eps]
    zb = m.zb
    tol = 2e-5
    R.trace()
    sgn = None
    worst = 0.
    for i in range(len(eps)):
        if i == 0:
            z = -np.array([0., .3, 1.]) / max(m.k0, 1e-3)
            zc = 0.
        elif i == len(eps) - 1:
            z = zb[-1] + np.array([0., .3, 1.]) / max(m.kN, 1e-3)
            zc = zb[-1]
        else:
            z = np.linspace(zb[i - 1], zb[i], 5)
            zc = .5 * (zb[i - 1] + zb[i])
        a, b = AB[i]
        e = 1j * ch[i]
        if i == 0:
            f = b * np.exp(-e * (z - zc))
            df = -e * f
            R.check(abs(a) <= 1e-12 * abs(AB).max(), "lower cladding growth",
                    "A=%s" % a)
        elif i == len(eps) - 1:
            f = a * np.exp(e * (z - zc))
            df = e * f
            # with the cladding solution a decaying one the growing amplitude
            # must be negligible
            R.check(abs(b) <= 1e-4 * abs(AB).max(), "upper cladding growth",
                    "B=%s of %s" % (b, abs(AB).max()))
        else:
            f = a * np.exp(e * (z - zc)) + b * np.exp(-e * (z - zc))
            df = e * (a * np.exp(e * (z - zc)) - b * np.exp(-e * (z - zc)))
        p = 1. if pol == "TE" else 1. / eps[i]
        if i == 0:
            rf, rh = m.bnd[0][0] * np.exp(m.k0 * z), None
            rh = p * m.k0 * rf
        elif i == len(eps) - 1:
            rf = m.bnd[-1][0] * np.exp(-m.kN * (z - zc))
            rh = -p * m.kN * rf
        else:
            rf, rh = m.layer(i - 1, z - zb[i - 1])
        if sgn is None:
            sgn = np.sign((f[0] / rf[0]).real) if rf[0] else 1.
        s = np.sqrt(1e-300 + max(abs(x[0])**2 + (abs(x[1]) / g)**2
                                 for x in m.bnd))
        worst = max(worst, np.max(np.abs(f - sgn * rf)) / s,
                    np.max(np.abs(p * df - sgn * rh)) / s / g)
    R.check(worst < tol, "mode field", "g=%g w=%g relative error %.2e" %
            (g, w, worst))
