"""C02: structure-building histories, explored breadth-first on the real objects."""
import collections
import itertools
import numpy as np
from vk import geom

PROPERTY = "C02"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all histories of <=4 valid building operations (13-letter "
    "alphabet, states merged only when the reference structure is identical) "
    "with <=1 rejected operation inserted anywhere, on 6 lattices; permittivity "
    "compared on a 3D grid of points at every state; 5 shapes displaced by "
    "lattice vectors up to 4 periods in either direction",
    "thorough": "as quick with <=5 valid operations, displacements up to 7 periods",
}
ASSUMPTIONS = [
    "shapes do not overlap each other (documented limitation)",
    "permittivity is not judged within 1e-6 of a shape boundary",
]

LATS = {
    "square": ("square", ),
    "hexagonal": ("hexagonal", ),
    "rect": ([1., 0.], [0., 1.4]),
    "oblique": ([1.1, 0.], [0.4, 1.2]),
    "skew": ([1., 0.], [3.2, 1.1]),
    "rotated": ([0.9, 0.6], [-0.6, 0.9]),
}

# shapes: name -> (constructor, eps, area, inside(x,y)->(bool, margin))
TRI = np.array([(-.05, .2), (.25, .2), (.1, .42)])
SQV = np.array([(-.45, -.1), (-.25, -.1), (-.25, .1), (-.45, .1)])


def _disk(cx, cy, r):
    def f(x, y):
        d = np.hypot(x - cx, y - cy)
        return d <= r, np.abs(d - r)
    return f


def _poly(v):
    return lambda x, y: geom.poly_inside(v, x, y)


SHAPES = {
    "C": (lambda l: l.Circle(eps=9., x_cent=.1, y_cent=-.15, r=.2), 9.,
          np.pi * .04, _disk(.1, -.15, .2)),
    "T": (lambda l: l.Poly(eps=1., x_edges=TRI[:, 0], y_edges=TRI[:, 1]), 1.,
          geom.poly_area(TRI), _poly(TRI)),
    "S": (lambda l: l.Square(eps=6., x_cent=-.35, y_cent=0., a=.2), 6., .04,
          _poly(SQV)),
    "E": (lambda l: l.Ellipse(eps=2.5, x_cent=.42, y_cent=.3, rx=.06, ry=.06,
                              phi=.4), 2.5, np.pi * .0036,
          _disk(.42, .3, .06)),
}

VALID = [
    ("layer", .5, 4.), ("layer", .25, 12.),
    ("shape", "C", "last"), ("shape", "T", "last"), ("shape", "S", 0),
    ("shape", "E", "last"), ("shapes", "CT", 0), ("shape", "C", "l"),
    ("shape", "T", "u"), ("shape", "S", 1), ("shapes", "SE", "u0"),
    ("qw", .1), ("qw", .6),
]
INVALID = [
    ("layer_bad_type", ), ("shape_bad_layer", ), ("shape_bad_cladding", ),
    ("shape_not_shape", ), ("shape_list_bad", ), ("qw_low", ), ("qw_high", ),
    ("shape_list_bad_cladding", ), ("layer_freeform", ),
]


class Model:
    def __init__(self, lat, el, eu):
        self.el, self.eu = el, eu
        self.layers = []  # [d, eps_b, [shape names]]
        self.clad = [[], []]
        self.qws = []

    def copy(self):
        m = Model(None, self.el, self.eu)
        m.layers = [[d, e, list(s)] for d, e, s in self.layers]
        m.clad = [list(c) for c in self.clad]
        m.qws = list(self.qws)
        return m

    def key(self):
        return (tuple((d, e, tuple(s)) for d, e, s in self.layers),
                tuple(map(tuple, self.clad)), tuple(self.qws))

    def target(self, where):
        if where == "l":
            return self.clad[0]
        if where in ("u", "u0"):
            return self.clad[1]
        if where == "last":
            return self.layers[-1][2] if self.layers else None
        return self.layers[where][2] if where < len(self.layers) else None

    def apply(self, op):
        """Returns the new model, or None when the operation is not offered."""
        m = self.copy()
        if op[0] == "layer":
            m.layers.append([op[1], op[2], []])
        elif op[0] in ("shape", "shapes"):
            t = m.target(op[2])
            names = list(op[1])
            if t is None or any(n in t for n in names):
                return None
            t.extend(names)
        elif op[0] == "qw":
            if not (0 < op[1] < sum(x[0] for x in m.layers)):
                return None
            m.qws.append(op[1])
        return m


def do(l, phc, op):
    if op[0] == "layer":
        phc.add_layer(d=op[1], eps_b=op[2])
    elif op[0] in ("shape", "shapes"):
        sh = [SHAPES[n][0](l) for n in op[1]]
        if op[0] == "shape":
            sh = sh[0]
        if op[2] in ("l", "u"):
            phc.add_shape(sh, cladding=op[2])
        elif op[2] == "u0":
            phc.add_shape(sh, cladding=1)
        elif op[2] == "last":
            phc.add_shape(sh)
        elif op[2] == 1:
            phc.layers[1].add_shape(sh)
        else:
            phc.add_shape(sh, layer=op[2])
    elif op[0] == "qw":
        phc.add_qw(z=op[1], V_shapes=.1, a=1e-7, M=1e-31, E0=1.5, loss=1e-4,
                   osc_str=[1e16, 0., 0.])


def do_invalid(l, phc, op):
    """Must raise."""
    k = op[0]
    if k == "layer_bad_type":
        phc.add_layer(d=1., eps_b=3., layer_type="nonsense")
    elif k == "layer_freeform":
        phc.add_layer(d=1., eps_b=3., layer_type="freeform")
    elif k == "shape_bad_layer":
        phc.add_shape(SHAPES["C"][0](l), layer=len(phc.layers) + 1)
    elif k == "shape_bad_cladding":
        phc.add_shape(SHAPES["C"][0](l), cladding="x")
    elif k == "shape_not_shape":
        phc.add_shape(["circle"], cladding=0)
    elif k == "shape_list_bad":
        phc.add_shape([SHAPES["C"][0](l), 3.], layer=-1)
    elif k == "shape_list_bad_cladding":
        phc.add_shape([SHAPES["S"][0](l), SHAPES["E"][0](l), None],
                      cladding="u")
    elif k == "qw_low":
        phc.add_qw(z=0., V_shapes=.1, a=1e-7, M=1e-31, E0=1.5, loss=1e-4,
                   osc_str=[1e16, 0., 0.])
    elif k == "qw_high":
        phc.add_qw(z=50., V_shapes=.1, a=1e-7, M=1e-31, E0=1.5, loss=1e-4,
                   osc_str=[1e16, 0., 0.])


def cases(tier):
    depth = 5 if tier == "thorough" else 4
    cs = []
    for lat in LATS:
        # the first operation partitions the tree so cases run in parallel
        cs.append({"lattice": lat, "prefix": [], "depth": 0})
        for i in range(len(VALID)):
            cs.append({"lattice": lat, "prefix": [i], "depth": 1})
        for i, j in itertools.product(range(len(VALID)), repeat=2):
            cs.append({"lattice": lat, "prefix": [i, j], "depth": depth})
    for lat in ("square", "oblique"):
        cs.append({"lattice": lat, "mesh": 1})
    for lat in LATS:
        cs.append({"lattice": lat, "place": 7 if tier == "thorough" else 4})
    return cs


class Points:
    def __init__(self, lat, n=15):
        g = np.linspace(-1.43, 1.37, n)
        X, Y = np.meshgrid(g, g + .011)
        self.x, self.y = X.ravel(), Y.ravel()
        A = np.array(lat)
        N = 12
        self.ins, self.bad = {}, np.zeros(self.x.shape, bool)
        for nm, (_, _, _, f) in SHAPES.items():
            ins = np.zeros(self.x.shape, bool)
            for i, j in itertools.product(range(-N, N + 1), repeat=2):
                t = i * A[0] + j * A[1]
                if np.hypot(*t) > 4:
                    continue
                a, m = f(self.x + t[0], self.y + t[1])
                ins |= a
                self.bad |= m < 1e-6
            self.ins[nm] = ins

    def eps(self, eps_b, names):
        e = np.full(self.x.shape, float(eps_b))
        for n in names:
            e[self.ins[n]] = SHAPES[n][1]
        return e


def overlap_free(P, names):
    c = sum(P.ins[n].astype(int) for n in names)
    return not names or c.max() <= 1


def compare(R, key, l, phc, m, P, area):
    msgs = []
    zs = np.concatenate([[0.], np.cumsum([x[0] for x in m.layers])])
    if len(phc.layers) != len(m.layers):
        return R.fail(key + ":layers", "expected %d layers, got %d" %
                      (len(m.layers), len(phc.layers)))
    allb = [(phc.claddings[0], m.el, m.clad[0]),
            (phc.claddings[1], m.eu, m.clad[1])]
    if phc.claddings[0].z_max != 0 or abs(phc.claddings[1].z_min - zs[-1]) > 1e-12:
        msgs.append("cladding boundaries %s %s" % (phc.claddings[0].z_max,
                                                   phc.claddings[1].z_min))
    for i, (d, e, s) in enumerate(m.layers):
        la = phc.layers[i]
        allb.append((la, e, s))
        if abs(la.z_min - zs[i]) > 1e-12 or abs(la.z_max - zs[i + 1]) > 1e-12 \
                or abs(la.d - d) > 1e-12 or \
                abs(la.z_mid - (zs[i] + zs[i + 1]) / 2) > 1e-12:
            msgs.append("layer %d z range %s..%s d=%s, expected %s..%s" %
                        (i, la.z_min, la.z_max, la.d, zs[i], zs[i + 1]))
    for la, e, s in allb:
        avg = e + sum((SHAPES[n][1] - e) * SHAPES[n][2] for n in s) / area
        if la.eps_b != e or np.size(la.eps_avg) != 1 or \
                abs(float(np.squeeze(la.eps_avg)) - avg) > 1e-5:
            msgs.append("average permittivity %s, expected %s (%s)" %
                        (la.eps_avg, avg, s))
        if [x.eps for x in la.shapes] != [SHAPES[n][1] for n in s]:
            msgs.append("shapes %s expected %s" % (la.shapes, s))
    if [q.z for q in phc.qws] != m.qws:
        msgs.append("quantum wells %s expected %s" %
                    ([q.z for q in phc.qws], m.qws))
    vals = [e for _, e, _ in allb] + [SHAPES[n][1] for _, _, s in allb
                                      for n in s]
    b = phc.get_eps_bounds()
    R.step()
    if abs(b[0] - min(vals)) > 1e-12 or abs(b[1] - max(vals)) > 1e-12:
        msgs.append("bounds %s expected %s" % (b, (min(vals), max(vals))))
    if not isinstance(repr(phc), str) or not isinstance(str(phc), str):
        msgs.append("not printable")
    # permittivity at every height class
    hs = [(-.3, 0), (zs[-1] + .2, 1), (zs[-1], 1)]
    for i in range(len(m.layers)):
        hs += [(zs[i], 2 + i), ((zs[i] + zs[i + 1]) / 2, 2 + i),
               (zs[i + 1] - 1e-9, 2 + i)]
    Z = np.repeat([h for h, _ in hs], P.x.size)
    X, Y = np.tile(P.x, len(hs)), np.tile(P.y, len(hs))
    R.step()
    got = phc.get_eps((X.reshape(len(hs), -1), Y.reshape(len(hs), -1),
                       Z.reshape(len(hs), -1)))
    for r, (h, w) in enumerate(hs):
        la, e, s = allb[w]
        if not overlap_free(P, s):
            continue
        want = P.eps(e, s)
        ok = (np.abs(got[r] - want) < 1e-9) | P.bad
        if not ok.all():
            i = int(np.argmin(ok))
            msgs.append("eps(%.3f,%.3f,%.3f)=%s expected %s" %
                        (P.x[i], P.y[i], h, got[r, i], want[i]))
            break
    if m.layers:
        zg = phc.z_grid(Nz=7, dist=.4)
        R.step()
        if not np.allclose(zg, np.linspace(-.4, zs[-1] + .4, 7)):
            msgs.append("z_grid %s" % zg)
    R.outcome((np.round(got, 6).tobytes(), len(m.qws)))
    R.trace()
    for t in msgs:
        R.fail(key, t)


# Outlines for the placement cases: (constructor at a displacement, inside)
LONG = np.array([(-.2, -.1), (-.13, -.16), (2.3, 1.5), (2.2, 1.53)])
STAR = np.array([(.3, 0.), (.08, .08), (0., .3), (-.08, .08), (-.3, 0.),
                 (-.08, -.08), (0., -.3), (.08, -.08)])


def _ell(rx, ry, phi):
    def f(x, y):
        c, s = np.cos(phi), np.sin(phi)
        u = ((c * x + s * y) / rx)**2 + ((c * y - s * x) / ry)**2
        return u <= 1, np.abs(u - 1) * min(rx, ry) / 2
    return f


PLACED = {
    "circle": (lambda l, x, y: l.Circle(eps=5., x_cent=x, y_cent=y, r=.31),
               _disk(0., 0., .31)),
    "ellipse": (lambda l, x, y: l.Ellipse(eps=5., x_cent=x, y_cent=y, rx=.33,
                                          ry=.12, phi=.7), _ell(.33, .12, .7)),
    "square": (lambda l, x, y: l.Square(eps=5., x_cent=x, y_cent=y, a=.4),
               _poly(np.array([(-.2, -.2), (.2, -.2), (.2, .2), (-.2, .2)]))),
    "star": (lambda l, x, y: l.Poly(eps=5., x_edges=STAR[:, 0] + x,
                                    y_edges=STAR[:, 1] + y), _poly(STAR)),
    "long": (lambda l, x, y: l.Poly(eps=5., x_edges=LONG[:, 0] + x,
                                    y_edges=LONG[:, 1] + y), _poly(LONG)),
}


def place(c, R):
    """One shape displaced by every lattice vector of a box (plus an offset):
    the structure, and what is reported at any point, is always the same."""
    import legume as l
    lat = l.Lattice(*LATS[c["lattice"]])
    A = np.array([lat.a1, lat.a2], float)
    area = abs(np.linalg.det(A))
    g = np.linspace(-.83, .91, 13)
    X, Y = np.meshgrid(g, g + .007)
    for nm, (make, f) in PLACED.items():
        for off in ((0., 0.), (.37, -.23)):
            ins, bad = np.zeros(X.shape, bool), np.zeros(X.shape, bool)
            for i, j in itertools.product(range(-14, 15), repeat=2):
                t = i * A[0] + j * A[1] - off
                if np.hypot(*t) > 6:
                    continue
                a, m = f(X + t[0], Y + t[1])
                ins |= a
                bad |= m < 1e-6
            for n in itertools.product(range(-c["place"], c["place"] + 1),
                                       repeat=2):
                if max(map(abs, n)) not in (0, 1, 2, c["place"]):
                    continue
                x, y = n[0] * A[0] + n[1] * A[1] + off
                phc = l.PhotCryst(lat)
                phc.add_layer(.5, 2.)
                phc.add_shape(make(l, x, y))
                R.state((c["lattice"], nm, off, n))
                R.step(2)
                R.trace()
                e = phc.get_eps((X, Y, 0 * X + .2))
                R.outcome(e.tobytes())
                ok = (e == np.where(ins, 5., 2.)) | bad
                R.check(ok.all(), "placement: permittivity",
                        "%s at (%.3f, %.3f), %d points differ" %
                        (nm, x, y, (~ok).sum()))
                s = phc.layers[0].shapes[0]
                R.check(abs(phc.layers[0].eps_avg -
                            (2. + 3. * float(np.squeeze(s.area)) / area)) <
                        1e-9, "placement: average", nm)


def meshes(c, R):
    """get_eps keeps the shape of the points and refuses unequal shapes."""
    import legume as l
    lat = l.Lattice(*LATS[c["lattice"]])
    phc = l.PhotCryst(lat, eps_l=2., eps_u=1.5)
    phc.add_layer(.5, 4.)
    phc.add_shape(l.Circle(eps=9., r=.2))
    sh = [(3,), (1,), (2, 3), (3, 2), (1, 3), (6,), (2, 3, 1), (0,), (0, 3)]
    for a in itertools.product(sh, repeat=3):
        pts = tuple(np.full(s, v) for s, v in zip(a, (.1, .05, .3)))
        R.state((c["lattice"], a))
        R.step()
        R.trace()
        try:
            e = phc.get_eps(pts)
        except ValueError:
            R.check(len(set(a)) > 1, "mesh: refused", "shapes %s" % (a,))
            continue
        R.check(len(set(a)) == 1 and np.shape(e) == a[0] and np.all(e == 9.),
                "mesh: accepted", "shapes %s gave %s" % (a, e))
    for a in itertools.product([s for s in sh if 0 not in s], repeat=2):
        for y, v in ((phc.layers[0], 9.), (phc.claddings[0], 2.)):
            R.state((c["lattice"], a, v))
            R.step()
            R.trace()
            try:
                e = y.get_eps((np.full(a[0], .1), np.full(a[1], .05)))
            except ValueError:
                R.check(a[0] != a[1], "mesh: refused (layer)", str(a))
                continue
            R.check(a[0] == a[1] and np.shape(e) == a[0] and np.all(e == v),
                    "mesh: accepted (layer)", "shapes %s gave %s" % (a, e))


def run_case(c, R):
    import legume as l
    if "mesh" in c:
        return meshes(c, R)
    if "place" in c:
        return place(c, R)
    args = LATS[c["lattice"]]
    lat = l.Lattice(*args)
    A = np.array([lat.a1, lat.a2], float)
    area = abs(np.linalg.det(A))
    P = Points(A)

    def build(hist):
        phc = l.PhotCryst(lat, eps_l=2., eps_u=1.5)
        for op in hist:
            R.step()
            if op[0] in IK:
                try:
                    do_invalid(l, phc, op)
                    return phc, op
                except CaseTimeoutBase:
                    raise
                except Exception:
                    pass
            else:
                do(l, phc, op)
        return phc, None

    m = Model(lat, 2., 1.5)
    hist = []
    for i in c["prefix"]:
        m = m.apply(VALID[i])
        if m is None:
            return
        hist = hist + [VALID[i]]
    R.state((c["lattice"], m.key()))
    seen = {m.key()}
    queue = collections.deque([(hist, m)])
    while queue:
        hist, m = queue.popleft()
        phc, bad = build(hist)
        compare(R, "history", l, phc, m, P, area)
        if R.fails:
            R.fails = [(k, "history %s: %s" % (hist, t)) for k, t in R.fails]
            return
        if len(hist) <= 2 or (c["lattice"] == "square"
                               and len(hist) < 4):
            for inv in INVALID:
                reject(R, l, build, hist, inv, m, P, area)
        if len(hist) >= c["depth"]:
            continue
        for op in VALID:
            n = m.apply(op)
            if n is not None and n.key() not in seen:
                seen.add(n.key())
                R.state((c["lattice"], n.key()))
                queue.append((hist + [op], n))


def reject(R, l, build, hist, inv, m, P, area):
    # a rejected operation, then one further layer: still the same structure
    phc, accepted = build(hist + [inv])
    R.state((hist, inv))
    if accepted is not None:
        return R.fail("accepted:" + inv[0], "%s accepted after %s" %
                      (inv, hist))
    n0 = len(R.fails)
    compare(R, "rejected:" + inv[0], l, phc, m, P, area)
    do(l, phc, ("layer", .25, 12.))
    compare(R, "rejected-then:" + inv[0], l, phc,
            m.apply(("layer", .25, 12.)), P, area)
    if len(R.fails) > n0:
        R.fails[n0] = (R.fails[n0][0], "after %s: %s" % (hist, R.fails[n0][1]))


IK = {op[0] for op in INVALID}
from vk.core import CaseTimeout as CaseTimeoutBase  # noqa: E402
