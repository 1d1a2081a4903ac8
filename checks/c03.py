"""C03: lattices, visualisation grids and Brillouin-zone paths."""
import itertools
import numpy as np

PROPERTY = "C03"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all pairs of primitive vectors with components in a 5-value set "
    "(degenerate pairs excluded); all point sequences of length 2-4 over a "
    "6-letter alphabet on 4 lattices x 5 step specifications x 4 Gamma "
    "conventions; "
    "all segments from 8 points that meet Gamma after i of i + j steps (i, j "
    "<= 6, with inexactly representable points); all invalid "
    "point/step/constructor calls listed",
    "thorough": "as quick with point sequences of length 2-5, 7 components "
    "and i, j <= 11",
}
ASSUMPTIONS = []


def cases(tier):
    th = tier == "thorough"
    cs = [{"kind": "named"}, {"kind": "reject"}]
    comps = [-1., -.5, 0., .3, 1.] + ([1.7, -.2] if th else [])
    for c in comps:
        for d in comps:
            cs.append({"kind": "vectors", "a1": [c, d], "comps": comps})
    for lat in ("square", "hexagonal", "rect", "oblique"):
        for n in range(2, 6 if th else 5):
            for first in range(6):
                cs.append({"kind": "path", "lattice": lat, "n": n,
                           "first": first})
    for lat in ("square", "hexagonal", "rect", "oblique"):
        cs.append({"kind": "cross", "lattice": lat,
                   "m": 12 if th else 7})
    return cs


ALPH = {
    "square": ["G", "x", "M", [-np.pi, 0.], np.array([1., -.5]), "gamma"],
    "hexagonal": ["g", "K", "m", [0., -2.], np.array([-.25, .75]), "Gamma"],
    "rect": ["G", [np.pi, 0.], [0., 2.], [-np.pi, 0.], np.array([1., 2.]),
             [0., 0.]],
    "oblique": ["gamma", [1., 0.], [-1., 0.], np.array([.5, -1.]), [2., 2.],
                np.array([0., 0.])],
}
ARGS = {"square": ("square", ), "hexagonal": ("hexagonal", ),
        "rect": ([1., 0.], [0., 2.]), "oblique": ([1., .2], [.3, -1.])}
NAMED = {("square", "x"): (np.pi, 0), ("square", "m"): (np.pi, np.pi),
         ("hexagonal", "m"): (np.pi, np.pi / np.sqrt(3)),
         ("hexagonal", "k"): (4 * np.pi / 3, 0)}


def val(lat, p):
    if isinstance(p, str):
        if p.lower() in ("g", "gamma"):
            return np.zeros(2)
        return np.array(NAMED[(lat, p.lower())], float)
    return np.array(p, float)


def check_lattice(R, key, lat, a1, a2, d):
    A = np.array([a1, a2])
    B = np.array([lat.b1, lat.b2], float)
    R.step()
    R.trace()
    R.outcome(np.round(B, 9).tobytes())
    R.check(np.allclose([lat.a1, lat.a2], A, atol=1e-12), key + ":a", d)
    R.check(B.shape == (2, 2) and np.allclose(B @ A.T, 2 * np.pi * np.eye(2),
                                              atol=1e-9), key + ":dual", d)
    det = abs(a1[0] * a2[1] - a1[1] * a2[0])
    R.check(abs(lat.ec_area - det) < 1e-9, key + ":cell", d)
    R.check(abs(lat.bz_area - 4 * np.pi**2 / det) < 1e-8 * (1 + 1 / det),
            key + ":zone", d)
    R.check(isinstance(repr(lat), str), key + ":repr", d)
    for per in (None, 1, 2., 3, [2, 1], (1, 3), np.array([2., 4.])):
        orth = abs(a1[0] * a2[0] + a1[1] * a2[1]) < 1e-14
        x, y = lat.xy_grid(Nx=5, Ny=4, periods=per)
        R.step()
        if per is None:
            p = (1, 1) if orth else (2, 2)
        else:
            p = np.ones(2) * np.array(per)
        X = max(abs(a1[0]), abs(a2[0])) * p[0] / 2
        Y = max(abs(a1[1]), abs(a2[1])) * p[1] / 2
        if not (np.allclose(x, np.linspace(-X, X, 5)) and
                np.allclose(y, np.linspace(-Y, Y, 4))):
            R.fail(key + ":grid", "%s periods=%s: x=%s y=%s" % (d, per, x, y))


def run_case(c, R):
    import legume
    k = c["kind"]
    if k == "vectors":
        a1 = c["a1"]
        for a2 in itertools.product(c["comps"], repeat=2):
            det = a1[0] * a2[1] - a1[1] * a2[0]
            if abs(det) < 1e-9:
                continue
            R.state((tuple(a1), a2))
            for f in (list, np.array, tuple):
                lat = legume.Lattice(f(a1), f(a2))
                check_lattice(R, "vectors", lat, np.array(a1), np.array(a2),
                              "Lattice(%s, %s)" % (a1, a2))
    elif k == "named":
        h = np.sqrt(3) / 2
        for nm, a1, a2 in (("square", (1., 0.), (0., 1.)),
                           ("hexagonal", (.5, h), (.5, -h))):
            R.state(nm)
            check_lattice2(R, legume.Lattice(nm), nm, a1, a2)
    elif k == "cross":
        # every straight segment that meets Gamma at one of its steps, from
        # inexactly representable end points
        lat = legume.Lattice(*ARGS[c["lattice"]])
        for p in ([.1, .3], [.7, -.2], [np.pi / 3, .9], [-1.3, np.sqrt(2)],
                  np.array([.3, .6]), [1e-3, 2e-3], [2.1, 0.], [0., .7]):
            for i in range(1, c["m"]):
                for j in range(1, c["m"]):
                    p1 = np.array(p)
                    p2 = -p1 * j / i
                    pts = [p1, p2, np.array([.5, 1.])]
                    R.state((c["lattice"], tuple(p), i, j))
                    check_path(R, lat, c["lattice"], pts, pts, [i + j, 2],
                               [0., 1.], (0., 1.))
    elif k == "path":
        path_case(c, R, legume)
    else:
        rejects(R, legume)


def check_lattice2(R, lat, nm, a1, a2):
    check_lattice_named = np.array(a1), np.array(a2)
    A = np.array(check_lattice_named)
    B = np.array([lat.b1, lat.b2], float)
    R.step()
    R.trace()
    R.check(np.allclose([lat.a1, lat.a2], A), "named:a", nm)
    R.check(np.allclose(B @ A.T, 2 * np.pi * np.eye(2)), "named:dual", nm)
    det = abs(np.linalg.det(A))
    R.check(abs(lat.ec_area - det) < 1e-12 and
            abs(lat.bz_area - 4 * np.pi**2 / det) < 1e-9, "named:area", nm)
    per = (1, 1) if nm == "square" else (2, 2)
    x, y = lat.xy_grid(Nx=3, Ny=3)
    mx, my = np.abs(A).max(axis=0)
    R.check(np.allclose(x, np.array([-1, 0, 1]) * mx * per[0] / 2) and
            np.allclose(y, np.array([-1, 0, 1]) * my * per[1] / 2),
            "named:grid", nm)


def path_case(c, R, legume):
    nm = c["lattice"]
    lat = legume.Lattice(*ARGS[nm])
    al = ALPH[nm]
    n = c["n"]
    for seq in itertools.product(range(6), repeat=n - 1):
        pts = [al[c["first"]]] + [al[i] for i in seq]
        vals = [val(nm, p) for p in pts]
        if sum(np.hypot(*(b - a)) for a, b in zip(vals, vals[1:])) == 0:
            continue
        R.state((nm, c["first"], seq))
        nss = [[4], [1], 3, [2 + 2 * i for i in range(n - 1)],
               tuple(5 - i for i in range(n - 1))]
        for iN, ns in enumerate(nss):
            for sg, sgv in ((None, (np.pi, 0)), ([0., 1.], (0., 1.)),
                            (np.array([-1., 1.]), (-1., 1.)),
                            (next((p for p in al if isinstance(p, str) and
                                   p.lower() not in ("g", "gamma")), [2., 1.]),
                             None)):
                if iN and sg is not None and iN != 3:
                    continue
                if sgv is None:
                    sgv = val(nm, sg)
                check_path(R, lat, nm, pts, vals, ns, sg, sgv)
            if R.fails:
                return


def check_path(R, lat, nm, pts, vals, ns, sg, sgv):
    d = "%s bz_path(%s, ns=%s, symm_g=%s)" % (nm, pts, ns, sg)
    saved = [np.array(p, copy=True) if not isinstance(p, str) else p
             for p in pts]
    ns_saved = repr(ns)
    R.step()
    path = lat.bz_path(pts, ns) if sg is None else \
        lat.bz_path(pts, ns, symm_g=sg)
    R.trace()
    cnt = [ns] * (len(pts) - 1) if isinstance(ns, int) else list(ns)
    if len(cnt) == 1:
        cnt = cnt * (len(pts) - 1)
    want = []
    for (p1, p2), m in zip(zip(vals, vals[1:]), cnt):
        for j in range(m):
            want.append(p1 + (p2 - p1) * j / m)
    want.append(vals[-1])
    want = np.array(want).T
    kp = np.asarray(path["kpoints"])
    R.outcome(np.round(kp, 6).tobytes())
    if kp.shape != want.shape or not np.allclose(kp, want, atol=1e-10):
        return R.fail("path:kpoints", d + " gives %s" % kp)
    idx = np.concatenate([[0], np.cumsum(cnt)])
    R.check(list(path["indexes"]) == list(idx), "path:indexes", d)
    seg = np.hypot(*np.diff(want, axis=1))
    s = np.concatenate([[0], np.cumsum(seg)]) / seg.sum()
    R.check(np.allclose(path["k_indexes"], s[idx], atol=1e-9),
            "path:k_indexes", d + " gives %s" % (path["k_indexes"], ))
    ang = np.degrees(np.arctan2(want[1], want[0]))
    z = np.hypot(want[0], want[1]) < 1e-12
    ang[z] = np.degrees(np.arctan2(sgv[1], sgv[0]))
    got = np.asarray(path["angles"], float)
    dd = (got - ang + 180) % 360 - 180 if got.shape == ang.shape else None
    R.check(dd is not None and np.allclose(dd, 0, atol=1e-7), "path:angles",
            d + " gives %s expected %s" % (got, ang))
    lab = path["labels"]
    ok = len(lab) == len(pts)
    for p, t in zip(pts, lab):
        if isinstance(p, str):
            ok = ok and t == p.upper()
        else:
            ok = ok and "%.2f" % (p[0] / np.pi) in t and \
                "%.2f" % (p[1] / np.pi) in t
    R.check(ok, "path:labels", d + " gives %s" % (lab, ))
    same = all(np.array_equal(np.array(a), b) if not isinstance(a, str)
               else a == b for a, b in zip(pts, saved))
    R.check(same and repr(ns) == ns_saved, "path:mutates", d)


def rejects(R, legume):
    L = {k: legume.Lattice(*a) for k, a in ARGS.items()}
    calls = [
        ("one point", lambda: L["square"].bz_path(["G"], [3])),
        ("no point", lambda: L["square"].bz_path([], [3])),
        ("too many counts", lambda: L["square"].bz_path(["G", "X"], [3, 3])),
        ("too few counts", lambda: L["square"].bz_path(
            ["G", "X", "M", "G"], [3, 3])),
        ("K on square", lambda: L["square"].bz_path(["G", "K"], [3])),
        ("X on hexagonal", lambda: L["hexagonal"].bz_path(["G", "X"], [3])),
        ("M on rect", lambda: L["rect"].bz_path(["G", "M"], [3])),
        ("X on rect", lambda: L["rect"].bz_path(["X", "G"], [3])),
        ("K on oblique", lambda: L["oblique"].bz_path(["G", "K"], [3])),
        ("unknown name", lambda: L["square"].bz_path(["G", "Q"], [3])),
        ("bad type", lambda: L["square"].bz_path(["G", 3.], [3])),
        ("bad symm_g", lambda: L["square"].bz_path(["G", "X"], [3],
                                                   symm_g="K")),
        ("bad lattice name", lambda: legume.Lattice("triangular")),
        ("bad lattice args", lambda: legume.Lattice([1, 0], [0, 1], [1, 1])),
    ]
    for nm, f in calls:
        R.state(nm)
        R.step()
        R.trace()
        try:
            f()
            R.fail("reject", nm + " accepted")
        except Exception as e:
            R.outcome(type(e).__name__)
