"""C18: exported layout files, decoded by an independent GDSII reader."""
import itertools
import os
import shutil
import struct
import tempfile
import numpy as np
from vk import structs

PROPERTY = "C18"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "coordinates are snapped to the 1 nm database grid of the file",
    "a raster maps its first index to a1 and its second to a2, spanning the "
    "cell centred at the origin (behaviour of the exporter; documented only "
    "as 'projected onto a lattice')",
    "circles are polygons within the given tolerance (documented)",
]
BOUNDS = {
    "quick": "all shape lists of <= 2 of 7 kinds in each of <= 3 layers (one "
             "varied at a time), 3 units, 4 tolerances, circles and squares of 5 "
             "sizes (.04 to 6 units); all 512 binary 3x3 "
             "rasters and 81 grey rasters x lattice x boundary option x level "
             "form; every history of <= 2 exports incl. refused ones",
    "thorough": "shape lists of <= 3, all lattices, 3x4 rasters (4096)",
}


# ------------------------------------------------------------ GDSII reader
def _real8(b):
    s = -1 if b[0] & 0x80 else 1
    return s * int.from_bytes(b[1:8], "big") / 2.**56 * 16.**((b[0] & 0x7f) -
                                                             64)


def read_gds(fn):
    """dict(cells, polys=[(cell, layer, datatype, points in metres)])."""
    data = open(fn, "rb").read()
    i, cell, cur = 0, None, None
    out = dict(cells=[], polys=[], other=[])
    while i < len(data):
        n, t = struct.unpack(">HH", data[i:i + 4])
        if n == 0:
            break
        b = data[i + 4:i + n]
        i += n
        if t == 0x0305:
            out["user"], out["db"] = _real8(b[:8]), _real8(b[8:])
        elif t == 0x0606:
            cell = b.rstrip(b"\0").decode()
            out["cells"].append(cell)
        elif t == 0x0800:
            cur = dict()
        elif t in (0x0900, 0x0A00, 0x0B00, 0x0C00):
            out["other"].append(t)
        elif t == 0x0D02 and cur is not None:
            cur["layer"] = struct.unpack(">h", b)[0]
        elif t == 0x0E02 and cur is not None:
            cur["dt"] = struct.unpack(">h", b)[0]
        elif t == 0x1003 and cur is not None:
            xy = np.frombuffer(b, dtype=">i4").reshape(-1, 2).astype(float)
            if len(xy) > 1 and np.array_equal(xy[0], xy[-1]):
                xy = xy[:-1]
            # zero-length edges carry no geometry
            keep = np.any(xy != np.roll(xy, 1, axis=0), axis=1)
            cur["xy"] = xy[keep] * out["db"]
        elif t == 0x1100 and cur is not None:
            out["polys"].append((cell, cur["layer"], cur["dt"], cur["xy"]))
            cur = None
    return out


def area(p):
    x, y = p.T
    return .5 * np.sum(x * np.roll(y, -1) - y * np.roll(x, -1))


def same_poly(p, q, tol):
    """equal up to starting vertex (and orientation), tolerance tol;
    consecutive coinciding vertices of q are merged by snapping."""
    if len(p) != len(q):
        return False
    for z in (q, q[::-1]):
        for s in range(len(z)):
            if np.abs(np.roll(z, s, axis=0) - p).max() <= tol:
                return True
    return False


def inside(poly, x, y):
    c = False
    n = len(poly)
    for i in range(n):
        (x1, y1), (x2, y2) = poly[i], poly[(i + 1) % n]
        if (y1 > y) != (y2 > y) and x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
            c = not c
    return c


# ------------------------------------------------------------------ crystal
def shapes(legume):
    P = structs
    h = np.sqrt(3) / 2
    sq = np.array([(-.5, -.5), (.5, -.5), (.5, .5), (-.5, .5)])
    hx = np.array([(1, 0), (.5, h), (-.5, h), (-1, 0), (-.5, -h), (.5, -h)])

    def rot(p, a):
        c = p.mean(axis=0)
        return (p - c) @ np.array([[np.cos(a), np.sin(a)],
                                   [-np.sin(a), np.cos(a)]]) + c
    K = {}
    for n, r in enumerate((.04, .12, .9, 2.5, 6.)):
        K["c%d" % n] = (lambda r=r: legume.Circle(x_cent=.3, y_cent=-1.2, r=r),
                        ("circle", .3, -1.2, r))
        K["s%d" % n] = (lambda r=r: legume.Square(x_cent=-.7, y_cent=.4, a=r),
                        ("poly", sq * r + [-.7, .4]))
    K.update({
        "circ": (lambda: legume.Circle(x_cent=.1, y_cent=-.25, r=.23),
                 ("circle", .1, -.25, .23)),
        "circ0": (lambda: legume.Circle(r=.31), ("circle", 0., 0., .31)),
        "sq": (lambda: legume.Square(x_cent=-.2, y_cent=.1, a=.3),
               ("poly", sq * .3 + [-.2, .1])),
        "hex": (lambda: legume.Hexagon(x_cent=.2, y_cent=.3, a=.22),
                ("poly", hx * .22 + [.2, .3])),
        "lsh": (lambda: P.make_shape(legume, "lsh", 2.), ("poly", P.LSH)),
        "tri": (lambda: P.make_shape(legume, "tri", 2.), ("poly", P.TRI)),
        "rsq": (lambda: legume.Square(x_cent=-.2, y_cent=.1, a=.3).rotate(.4),
                ("poly", rot(sq * .3 + [-.2, .1], .4))),
        # not supported by the exporter: must be refused
        "ell": (lambda: legume.Ellipse(rx=.3, ry=.1), None),
        "fou": (lambda: legume.FourierShape(f_as=np.array([.4, .05])), None),
    })
    return K


KS = ["circ", "circ0", "sq", "hex", "lsh", "tri", "rsq", "ell", "fou"]


def make(legume, K, layers, lat="square"):
    phc = legume.PhotCryst(legume.Lattice(lat))
    for l in layers:
        phc.add_layer(d=.2, eps_b=3.)
        for s in l:
            phc.add_shape(K[s][0]())
    return phc


def expect(R, key, K, layers, g, unit, tol):
    snap = .51 * 1e-9
    R.check(g["cells"] == ["CELL"] and not g["other"], key + ":cells",
            "cells %s" % g["cells"])
    R.check(abs(g["user"] * unit / g["db"] - 1) < 1e-9, key + ":unit",
            "user unit is %g m, not %g" % (g["db"] / g["user"], unit))
    got = {}
    for c, l, dt, xy in g["polys"]:
        got.setdefault((l, dt), []).append(xy)
    want = {}
    for i, l in enumerate(layers):
        for s in l:
            want.setdefault((i, 1), []).append(K[s][1])
    R.check(set(got) == set(want), key + ":layers",
            "layers written %s, expected %s" % (sorted(got), sorted(want)))
    for k in want:
        have = list(got.get(k, []))
        for w in want[k]:
            if w[0] == "poly":
                p = np.asarray(w[1]) * unit
                m = [i for i, q in enumerate(have) if same_poly(p, q, snap)]
                if R.check(m, key + ":poly", "no polygon %s in layer %s" %
                           (w[1].tolist(), k)):
                    have.pop(m[0])
            else:
                _, x, y, r = w
                c = np.array([x, y]) * unit
                # pieces of this circle: all vertices within the disc and the
                # outer ones on it
                m = [i for i, q in enumerate(have)
                     if np.all(np.hypot(*(q - c).T) <= r * unit + 2 * snap) and
                     np.sum(np.abs(np.hypot(*(q - c).T) - r * unit) <
                            2 * snap) >= len(q) - 3]
                if len(m) > 1 and all(len(have[i]) < 100 and np.hypot(
                        *(have[i] - c).T).min() > r * unit * .5 for i in m):
                    m = m[:1]       # the same circle twice in the list
                A = sum(abs(area(have[i])) for i in m)
                lo = np.pi * max(r - tol, 0)**2 * unit**2
                hi = np.pi * r**2 * unit**2
                e = 8 * r * unit * snap
                R.check(m and lo - e <= A <= hi + e, key + ":circle",
                        "circle %s: area %g (%d pieces), expected %g..%g" %
                        (w, A, len(m), lo, hi))
                if tol >= 1e-3 * max(1, r / .31):
                    R.check(len(m) == 1, key + ":circle", "%d polygons for "
                            "circle %s" % (len(m), w))
                if len(m) == 1:
                    q = have[m[0]]
                    far = r * unit - np.hypot(*((q + np.roll(
                        q, -1, axis=0)) / 2 - c).T).min()
                    R.check(far <= min(tol, r) * unit * 1.001 + 4 * snap, key +
                            ":tolerance", "circle %s: an edge lies %g inside "
                            "(tolerance %g)" % (w, far / unit, tol))
                have = [q for i, q in enumerate(have) if i not in m]
        R.check(not have, key + ":extra", "%d unexpected polygons in layer %s"
                % (len(have), k))


def export(R, legume, K, layers, d, name="o.gds", lat="square", **kw):
    from legume.gds import generate_gds
    fn = os.path.join(d, name)
    phc = make(legume, K, layers, lat)
    bad = any(K[s][1] is None for l in layers for s in l)
    R.step()
    R.state((str(layers), str(kw), lat))
    try:
        generate_gds(phc, fn, **kw)
    except RuntimeError as e:
        if not R.check(bad, "refused", "supported shapes %s refused: %s" %
                       (layers, e)):
            return
        R.check(not os.path.exists(fn), "refused:file",
                "a file was written although %s was refused" % layers)
        R.trace()
        return "refused"
    if not R.check(not bad, "dropped", "unsupported shape in %s accepted" %
                   layers):
        return
    g = read_gds(fn)
    expect(R, "gds", K, layers, g, kw.get("unit", 1e-6),
           kw.get("tolerance", .01))
    R.trace()
    R.outcome(len(g["polys"]))
    return g


def raster_case(R, legume, lat, r, d, lv, bound, unit, binary, key="raster"):
    from legume.gds import generate_gds_raster
    fn = os.path.join(d, "r.gds")
    if os.path.exists(fn):
        os.remove(fn)
    kw = dict(cell_bound=bound)
    if lv is not None:
        kw["levels"] = lv
    if unit != 1e-6:
        kw["unit"] = unit
    keep = r.copy()
    generate_gds_raster(lat, r, fn, **kw)
    R.step()
    R.state((lat.a1.tobytes(), lat.a2.tobytes(), r.tobytes(), str(lv), bound,
             unit))
    R.check(np.array_equal(keep, r), key + ":arg", "raster modified")
    g = read_gds(fn)
    R.check(g["cells"] == ["CELL"], key + ":cells", str(g["cells"]))
    R.check(abs(g["user"] * unit / g["db"] - 1) < 1e-9, key + ":unit", "unit")
    T = np.stack([lat.a1, lat.a2], axis=1)
    snap = .51e-9
    bnd = [xy for c, l, dt, xy in g["polys"] if (l, dt) == (0, 1)]
    tr = [xy for c, l, dt, xy in g["polys"] if (l, dt) == (0, 0)]
    R.check(len(bnd) + len(tr) == len(g["polys"]), key + ":layer",
            "unexpected layers")
    cell = (T @ np.array([[-.5, -.5, .5, .5], [-.5, .5, .5, -.5]])).T * unit
    R.check(len(bnd) == int(bound) and all(same_poly(cell, b, snap)
                                           for b in bnd), key + ":bound",
            "cell boundary %s with cell_bound=%s" % (bnd, bound))
    levels = [.5] if lv is None else list(np.atleast_1d(lv))
    # every pixel: number of outlines around it has the parity of the number
    # of levels below its value
    for i in range(r.shape[0]):
        for j in range(r.shape[1]):
            x, y = T @ (np.array([i / (r.shape[0] - 1),
                                  j / (r.shape[1] - 1)]) - .5) * unit
            x, y = x + 1.7e-10 * unit / 1e-6, y + 1.3e-10 * unit / 1e-6
            n = sum(inside(p, x, y) for p in tr) % 2
            w = sum(r[i, j] > l for l in levels) % 2
            if not R.check(n == w, key + ":pixel", "pixel (%d, %d) value %g: "
                           "parity %d of the outlines, expected %d" %
                           (i, j, r[i, j], n, w)):
                return
    # every vertex is on the linear interpolant at one of the levels
    Ti = np.linalg.inv(T)
    for p in tr:
        c = (Ti @ (p / unit).T + .5).T * (np.array(r.shape) - 1)
        for u, v in c:
            f = np.abs([u - round(u), v - round(v)])
            tolp = 1e-9 / unit * 2 * max(r.shape) / min(
                np.linalg.norm(lat.a1), abs(np.linalg.det(T)))
            if not R.check(f.min() <= tolp, key + ":vertex",
                           "vertex (%.3f, %.3f) is not on a grid line" %
                           (u, v)):
                return
            u, v = min(max(u, 0), r.shape[0] - 1), min(max(v, 0),
                                                       r.shape[1] - 1)
            i, j = min(int(u), r.shape[0] - 2), min(int(v), r.shape[1] - 2)
            a, b = u - i, v - j
            val = r[i, j] * (1 - a) * (1 - b) + r[i + 1, j] * a * (1 - b) + \
                r[i, j + 1] * (1 - a) * b + r[i + 1, j + 1] * a * b
            if not R.check(min(abs(val - l) for l in levels) < 20 * tolp,
                           key + ":level", "value %.3f at vertex (%.3f, %.3f)"
                           ", levels %s" % (val, u, v, levels)):
                return
    R.trace()
    R.outcome((len(tr), len(bnd)))


def cases(tier):
    big = tier != "quick"
    out = []
    for a in KS:
        out.append(dict(kind="gds", first=a, big=big))
    out.append(dict(kind="multi", big=big))
    out.append(dict(kind="size"))
    out.append(dict(kind="history"))
    lats = ["square", "oblique"] if not big else list(structs.LATTICES)
    for lat in lats:
        for hi in range(8):
            out.append(dict(kind="raster", lat=lat, top=hi, big=big))
        out.append(dict(kind="grey", lat=lat))
    return out


def run_case(case, R):
    import legume
    import legume.gds  # noqa: F401
    K = shapes(legume)
    d = tempfile.mkdtemp(prefix="c18_")
    try:
        if case["kind"] == "gds":
            a = case["first"]
            export(R, legume, K, [[a]], d)
            for u, t in itertools.product((1e-6, 1e-7, 5e-7),
                                          (.01, .1, 1e-3, 2e-5)):
                if os.path.exists(os.path.join(d, "u.gds")):
                    os.remove(os.path.join(d, "u.gds"))
                export(R, legume, K, [[a]], d, "u.gds", unit=u, tolerance=t)
            n = 0
            for b in KS:
                n += 1
                export(R, legume, K, [[a, b]], d, "p%d.gds" % n)
                if case["big"]:
                    for c in KS:
                        n += 1
                        export(R, legume, K, [[a, b, c]], d, "p%d.gds" % n)
        elif case["kind"] == "multi":
            n = 0
            pool = [[], ["circ"], ["sq", "lsh"], ["tri", "circ0"], ["ell"]]
            for m in (0, 1, 2, 3):
                for ls in itertools.product(pool, repeat=m):
                    for lat in ("square", "hexagonal"):
                        n += 1
                        export(R, legume, K, [list(l) for l in ls], d,
                               "m%d.gds" % n, lat=lat)
        elif case["kind"] == "size":
            n = 0
            for i, u, t in itertools.product(range(5), (1e-6, 1e-7, 5e-6),
                                             (.004, .01, .02, .1)):
                for a in "cs":
                    n += 1
                    if (a, t) == ("c", .1) and i == 0:
                        continue        # tolerance above the radius
                    export(R, legume, K, [["%s%d" % (a, i)]], d,
                           "s%d.gds" % n, unit=u, tolerance=t)
        elif case["kind"] == "history":
            seqs = [[["circ"]], [["sq"], ["tri"]], [[], ["lsh"]], [["ell"]],
                    "raster", "noraster"]
            r = np.zeros((5, 6))
            r[2, 1:4] = 1
            lat = structs.lattice(legume, "oblique")
            for n, (a, b, c) in enumerate(itertools.product(seqs, repeat=3)):
                for i, s in enumerate((a, b, c)):
                    if s == "raster":
                        raster_case(R, legume, lat, r, d, None, True, 1e-6,
                                    True, key="hist:raster")
                    elif s == "noraster":
                        raster_case(R, legume, lat, r, d, [.5], False, 1e-6,
                                    True, key="hist:raster")
                    else:
                        export(R, legume, K, s, d, "h%d_%d.gds" % (n, i))
                for i in range(3):
                    p = os.path.join(d, "h%d_%d.gds" % (n, i))
                    if os.path.exists(p):
                        os.remove(p)
        elif case["kind"] == "raster":
            lat = structs.lattice(legume, case["lat"])
            m = (3, 4) if case["big"] else (3, 3)
            N = m[0] * m[1]
            for low in range(2**(N - 3)):
                code = case["top"] * 2**(N - 3) + low
                r = np.zeros((m[0] + 2, m[1] + 3))
                r[1:1 + m[0], 1:1 + m[1]] = np.array(
                    [(code >> q) & 1 for q in range(N)]).reshape(m)
                bound, lv, unit = [(True, None, 1e-6), (False, [.5], 1e-6),
                                   (True, .5, 1e-7)][code % 3]
                raster_case(R, legume, lat, r, d, lv, bound, unit, True)
        else:
            lat = structs.lattice(legume, case["lat"])
            for v in itertools.product((0., .4, 1.), repeat=4):
                r = np.zeros((4, 5))
                r[1:3, 1:3] = np.array(v).reshape(2, 2)
                for lv in ([.3], [.3, .7], [.7, .2, .5], .7):
                    raster_case(R, legume, lat, r, d, lv, True, 1e-6, False,
                                key="grey")
    finally:
        shutil.rmtree(d, ignore_errors=True)
