"""C07: exact symmetries: all single transformations and ordered pairs."""
import copy
import itertools
import numpy as np
from vk import structs

PROPERTY = "C07"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "losses of degenerate modes are compared as the sum over the degenerate "
    "set; modes within 1e-4 of grazing emission are compared in frequency only",
]
BOUNDS = {
    "quick": "GME: 3 lattices x 4 stacks x abs/tbt x 3 k-points, all words of "
             "length <=2 (each unordered pair once) over 16 transformations; PWE: 4 lattices x 4 layers x "
             "2 polarisations x 3 k-points, same words",
    "thorough": "5 lattices x 6 stacks x 5 k-points, ordered words of length "
                "<=3 (first k-point) and <=2 (others)",
}
KP = [(.7, .4), (0., 0.), (-2.2, 1.9), (np.pi, 0.), (.3, -2.7)]

P = np.array


def shape(nm, eps):
    kind, p = structs.SHAPES[nm]
    if kind == "circle":
        return ["c", p["x_cent"], p["y_cent"], p["r"], eps]
    if kind == "ellipse":
        return ["e", p["x_cent"], p["y_cent"], p["rx"], p["ry"], p["phi"], eps]
    return ["p", [list(v) for v in p], eps]


LATS = {"square": [(1, 0), (0, 1)], "hex": [(.5, .75**.5), (.5, -.75**.5)],
        "oblique": [(1.1, 0), (.4, 1.2)], "rect": [(1, 0), (0, 1.3)],
        "skew": [(1, 0), (2.2, 1.1)]}
STACKS = {
    "asym": [[1., [], None], [11., [("tri", 1.)], .3], [1., [], None]],
    "two": [[2.1, [], None], [12., [("circle", 1.)], .2],
            [4., [("tri", 2.), ("lsh", 1.)], .15], [1., [], None]],
    "clad": [[1.3, [("lsh", 2.)], None], [10., [("ellipse", 2.)], .3],
             [1., [("circle0", 1.6)], None]],
    "three": [[1., [], None], [9., [("lsh", 1.)], .15], [2.5, [], .1],
              [11., [("tri", 1.)], .2], [1.9, [], None]],
    "hole": [[1., [], None], [12., [("circle0", 1.)], .25], [1., [], None]],
    "rod": [[1., [], None], [1., [("ellipse", 12.)], .5], [1., [], None]],
}


def spec(lat, st, k, gmax, tr):
    return dict(a=[list(map(float, v)) for v in LATS[lat]],
                layers=[[e, [shape(*s) for s in sh], d]
                        for e, sh, d in STACKS[st]],
                k=list(k), gmax=gmax, tr=tr, fs=1.)


def mapshape(s, A):
    """Apply an orthogonal matrix times scale A to a shape."""
    A = P(A)
    sc = np.sqrt(abs(np.linalg.det(A)))
    if s[0] == "c":
        c = A @ s[1:3]
        return ["c", c[0], c[1], s[3] * sc, s[4]]
    if s[0] == "e":
        c = A @ s[1:3]
        u = A @ [np.cos(s[5]), np.sin(s[5])]
        return ["e", c[0], c[1], s[3] * sc, s[4] * sc,
                float(np.arctan2(u[1], u[0])), s[6]]
    v = [list(A @ x) for x in s[1]]
    if np.linalg.det(A) < 0:
        v = v[::-1]
    return ["p", v, s[2]]


def lin(A, rec):
    """Linear map A of real space; rec: map of reciprocal space."""
    def f(q):
        q = copy.deepcopy(q)
        q["a"] = [list(P(A) @ v) for v in q["a"]]
        for l in q["layers"]:
            l[1] = [mapshape(s, A) for s in l[1]]
        q["k"] = list(P(rec) @ q["k"])
        return q
    return f


def rot(t):
    A = [[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]
    return lin(A, A)


def translate(t):
    def f(q):
        q = copy.deepcopy(q)
        for l in q["layers"]:
            for s in l[1]:
                if s[0] == "p":
                    s[1] = [[x + t[0], y + t[1]] for x, y in s[1]]
                else:
                    s[1], s[2] = s[1] + t[0], s[2] + t[1]
        return q
    return f


def flip(q):
    q = copy.deepcopy(q)
    q["layers"] = q["layers"][::-1]
    return q


def split(i, fr):
    def f(q):
        q = copy.deepcopy(q)
        j = i if i > 0 else len(q["layers"]) - 2
        l = q["layers"][j]
        m = copy.deepcopy(l)
        l[2], m[2] = l[2] * fr, l[2] * (1 - fr)
        q["layers"].insert(j, m)
        return q
    return f


def scale(s):
    g = lin([[s, 0], [0, s]], [[1 / s, 0], [0, 1 / s]])

    def f(q):
        q = g(q)
        for l in q["layers"]:
            if l[2] is not None:
                l[2] *= s
        q["gmax"] /= s
        q["fs"] /= s
        return q
    return f


def epsscale(c):
    def f(q):
        q = copy.deepcopy(q)
        for l in q["layers"]:
            l[0] *= c
            for s in l[1]:
                s[-1] *= c
        q["fs"] /= np.sqrt(c)
        return q
    return f


def reverse(q):
    q = copy.deepcopy(q)
    q["k"] = [-x for x in q["k"]]
    return q


def primitive(m):
    def f(q):
        q = copy.deepcopy(q)
        a = P(q["a"])
        q["a"] = [list(m[0][0] * a[0] + m[0][1] * a[1]),
                  list(m[1][0] * a[0] + m[1][1] * a[1])]
        return q
    return f


def swapshapes(q):
    q = copy.deepcopy(q)
    for l in q["layers"]:
        l[1] = l[1][::-1]
        for s in l[1]:
            if s[0] == "p":       # start at another vertex
                s[1] = s[1][1:] + s[1][:1]
    return q


T = {
    "split_first": split(1, .37), "split_last": split(-1, .5), "flip": flip,
    "move": translate((.23, -.41)), "mirror_x": lin([[-1, 0], [0, 1]],
                                                    [[-1, 0], [0, 1]]),
    "rot90": rot(np.pi / 2), "rot": rot(.3),
    "invert": lin([[-1, 0], [0, -1]], [[-1, 0], [0, -1]]),
    "reverse_k": reverse, "scale": scale(4e-7), "nm": scale(650.),
    "eps": epsscale(1.3),
    "epslow": epsscale(.16),
    "order": swapshapes, "prim": primitive([[1, 0], [1, 1]]),
    "prim2": primitive([[2, 1], [-1, 0]]),
}
ONLY_ABS = {"prim", "prim2"}
ONLY_GME = {"split_first", "split_last", "flip"}


def words(names, n, ordered):
    for r in range(1, n + 1):
        yield from (itertools.product(names, repeat=r) if ordered else
                    itertools.combinations(names, r))


def cases(tier):
    th = tier == "thorough"
    out = []
    for lat in list(LATS)[:5 if th else 3]:
        for st in list(STACKS)[:6 if th else 4]:
            for tr in ("abs", "tbt"):
                for ik in range(5 if th else 3):
                    out.append(dict(s="gme", lat=lat, st=st, tr=tr, ik=ik,
                                    depth=3 if th and ik == 0 else 2,
                                    ordered=th))
    for lat in list(LATS)[:5 if th else 4]:
        for st in ("asym", "two", "clad", "three"):
            for ik in range(5 if th else 3):
                out.append(dict(s="pwe", lat=lat, st=st, tr="tbt", ik=ik,
                                depth=3 if th else 2, ordered=th))
    return out


def build(legume, q):
    def mk(s):
        if s[0] == "c":
            return legume.Circle(eps=s[4], x_cent=s[1], y_cent=s[2], r=s[3])
        if s[0] == "e":
            return legume.Ellipse(eps=s[6], x_cent=s[1], y_cent=s[2],
                                  rx=s[3], ry=s[4], phi=s[5])
        return legume.Poly(eps=s[2], x_edges=[v[0] for v in s[1]],
                           y_edges=[v[1] for v in s[1]])
    lat = legume.Lattice(*q["a"])
    L = q["layers"]
    phc = legume.PhotCryst(lat, eps_l=L[0][0], eps_u=L[-1][0])
    for e, sh, d in L[1:-1]:
        phc.add_layer(d=d, eps_b=e)
        for s in sh:
            phc.add_shape(mk(s))
    for c, l in ((0, L[0]), (1, L[-1])):
        for s in l[1]:
            phc.add_shape(mk(s), cladding=c)
    return lat, phc, mk


def run_gme(legume, q):
    lat, phc, _ = build(legume, q)
    g = legume.GuidedModeExp(phc, gmax=q["gmax"], truncate_g=q["tr"])
    g.run(kpoints=P(q["k"])[:, None], gmode_inds=[0, 1, 2], numeig=8,
          verbose=False, gmode_step=1e-2 * q["fs"])
    f, fi = g.freqs[0] / q["fs"], g.freqs_im[0] / q["fs"]
    kg = np.hypot(*(g.gvec + P(q["k"])[:, None]))
    ec = [float(c.eps_avg) for c in phc.claddings]
    graz = P([min(np.min(np.abs(e - kg**2 / (2 * np.pi * x)**2)) / e
                  for e in ec) for x in np.maximum(g.freqs[0], 1e-9)])
    return f, fi, graz


def run_pwe(legume, q, pol):
    lat, _, mk = build(legume, q)
    L = q["layers"][1]
    layer = legume.ShapesLayer(lat, eps_b=L[0])
    for s in L[1]:
        layer.add_shape(mk(s))
    p = legume.PlaneWaveExp(layer, gmax=q["gmax"])
    p.run(kpoints=P(q["k"])[:, None], pol=pol, numeig=9)
    return p.freqs[0] / q["fs"]


def run_case(case, R):
    import legume
    gm = case["s"] == "gme"
    gmax = 1.24 if gm else 1.46
    base = spec(case["lat"], case["st"], KP[case["ik"]], gmax, case["tr"])
    names = [n for n in T if (case["tr"] == "abs" or n not in ONLY_ABS) and
             (gm or n not in ONLY_GME)]
    if gm:
        f0, i0, gz = run_gme(legume, base)
        # static (g = 0) modes at Gamma are artefacts of the g clip: drop them
        i0, gz, f0 = i0[f0 > 1e-2], gz[f0 > 1e-2], f0[f0 > 1e-2]
        cl = clusters(f0)
    else:
        p0 = {pol: run_pwe(legume, base, pol) for pol in ("te", "tm")}
    R.step()
    for w in words(names, case["depth"], case["ordered"]):
        q = base
        for t in w:
            q = T[t](q)
        R.state((case["s"], case["lat"], case["st"], case["tr"], case["ik"],
                 w))
        R.step()
        R.trace()
        if not gm:
            for pol in ("te", "tm"):
                f = run_pwe(legume, q, pol)
                R.check(np.max(np.abs(f**2 - p0[pol]**2)) < 1e-6, "frequency",
                        "%s: %s expected %s" % (w, f, p0[pol]))
                R.outcome(tuple(np.round(f[:3], 6)))
            continue
        f, fi, _ = run_gme(legume, q)
        f, fi = f[f > 1e-2], fi[f > 1e-2]
        n = min(len(f), len(f0))
        R.outcome(tuple(np.round(f[:3], 6)))
        if not R.check(abs(len(f) - len(f0)) < 3 and
                       np.max(np.abs(f[:n]**2 - f0[:n]**2)) < 1e-6,
                       "frequency", "%s: %s expected %s" % (w, f, f0)):
            continue
        for a, b in cl:
            if np.min(gz[a:b]) < 1e-4 or b >= n:
                R.count("loss not compared (zero/grazing/cut degenerate set)")
                continue
            x, y = np.sum(fi[a:b]), np.sum(i0[a:b])
            R.check(abs(x - y) < 1e-4 * y + 1e-9, "loss",
                    "%s: modes %d..%d: %s expected %s" % (w, a, b - 1, x, y))


def clusters(f):
    out, a = [], 0
    for i in range(1, len(f) + 1):
        if i == len(f) or f[i] - f[i - 1] > 1e-5:
            out.append((a, i))
            a = i
    return out
