"""C01: plane-wave coefficients, area and membership of every shape are exact."""
import itertools
import numpy as np
from vk import geom

PROPERTY = "C01"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all simple CCW polygons with 3-5 vertices on the 3x3 grid and "
    "all triangles on the 4x4 grid (every starting vertex for 3x3 triangles "
    "and quads), 3 placements, 2 lattices x |G index|<=2 plus off-lattice "
    "wavevectors; all circle/ellipse/square/hexagon/Fourier-shape parameter "
    "grids below; every rotation sequence of length <=2 over 4 angles",
    "thorough": "as quick, with 3-7 vertices on 3x3, 3-4 vertices on 4x4, "
    "|G index|<=3 and rotation sequences of length <=3",
}
ASSUMPTIONS = [
    "coefficients are compared to 2e-4 of the bounding area: the library "
    "regularises the edge-parallel limits to about 1e-6 by design",
    "membership is not judged within 1e-6 of the boundary",
]
TOL = 2e-4

HEX = (np.array([.5, np.sqrt(3) / 2]), np.array([.5, -np.sqrt(3) / 2]))


def gset(nmax):
    out = []
    for a1, a2 in ((np.array([1., 0.]), np.array([0., 1.])), HEX):
        A = np.array([a1, a2])
        B = 2 * np.pi * np.linalg.inv(A).T
        for i, j in itertools.product(range(-nmax, nmax + 1), repeat=2):
            out.append(i * B[0] + j * B[1])
    out += [np.array(p) for p in ((0.3, 0.), (0., -0.7), (1.1, 1.1),
                                  (2.3, -0.4), (0., 0.))]
    return np.array(out).T


def cases(tier):
    th = tier == "thorough"
    cs = [{"kind": "params", "which": w} for w in
          ("circle", "ellipse", "square", "hexagon", "fourier", "forms",
           "clockwise", "bad_fourier")]
    cs += [{"kind": "rotate", "base": b, "depth": 3 if th else 2}
           for b in range(6)]
    sets = [(3, 3), (3, 4), (3, 5), (4, 3)]
    if th:
        sets += [(3, 6), (3, 7), (4, 4)]
    for size, nv in sets:
        n = sum(1 for _ in geom.simple_polygons(size, nv))
        for i0 in range(0, n, 20):
            cs.append({"kind": "poly", "size": size, "nv": nv, "i0": i0,
                       "i1": min(n, i0 + 20), "gmax": 3 if th else 2,
                       "starts": nv <= 4 and size == 3})
    return cs


def cmp_ft(R, key, shape, ref, g, scale, desc):
    R.step()
    got = np.asarray(shape.compute_ft(g))
    R.trace()
    if got.shape != (g.shape[1], ):
        R.fail(key + ":shape", "%s returned shape %s" % (desc, got.shape))
        return
    err = np.abs(got - ref)
    R.outcome(np.round(got[:12], 6).tobytes())
    if not np.all(err <= TOL * scale):
        i = int(np.nanargmax(np.where(np.isnan(err), np.inf, err)))
        R.fail(key + ":ft", "%s at g=%s: coefficient %s, exact integral %s" %
               (desc, g[:, i], got[i], ref[i]))
    a = np.asarray(shape.area).ravel()
    if a.size != 1 or abs(a[0] - ref_area(ref, g)) > TOL * scale:
        R.fail(key + ":area", "%s area %s, exact %s" %
               (desc, shape.area, ref_area(ref, g)))


def ref_area(ref, g):
    return ref[np.argmin(np.abs(g).sum(axis=0))].real


XG, YG = np.meshgrid(np.linspace(-1.31, 1.29, 41), np.linspace(-1.27, 1.33, 37))


def cmp_inside_poly(R, key, shape, v, desc):
    ins, dist = geom.poly_inside(v, XG, YG)
    R.step()
    got = np.asarray(shape.is_inside(XG, YG)).astype(bool)
    ok = (got == ins) | (dist < 1e-6)
    if got.shape != XG.shape or not ok.all():
        R.fail(key + ":inside", "%s membership wrong at %d points" %
               (desc, (~ok).sum()))
    R.trace()


PLACE = [(0.25, -0.25, -0.25), (0.4, 0., 0.), (0.31, -0.7, 0.13)]


def run_case(c, R):
    import legume
    kind = c["kind"]
    if kind == "poly":
        g = gset(c["gmax"])
        for i, p in enumerate(itertools.islice(
                geom.simple_polygons(c["size"], c["nv"]), c["i0"], c["i1"])):
            for ip, (s, ox, oy) in enumerate(PLACE):
                for st in range(len(p) if c["starts"] and ip == 0 else 1):
                    q = p[st:] + p[:st]
                    v = np.array(q, float) * s + np.array([ox, oy])
                    R.state(("poly", q, ip))
                    sh = legume.Poly(eps=5., x_edges=list(v[:, 0]),
                                     y_edges=list(v[:, 1]))
                    R.step()
                    ref = geom.poly_ft(v, g)
                    d = "Poly%s scale %s offset (%s,%s)" % (q, s, ox, oy)
                    cmp_ft(R, "poly", sh, ref, g, max(.25, 9 * s * s), d)
                    if st == 0:
                        cmp_inside_poly(R, "poly", sh, v, d)
        return
    if kind == "rotate":
        return rotations(c, R)
    g = gset(3)
    w = c["which"]
    cents = [-0.45, 0., 0.3]
    if w == "circle":
        for cx, cy, r in itertools.product(cents, cents, [.05, .2, .45, .7]):
            R.state((w, cx, cy, r))
            sh = legume.Circle(eps=3., x_cent=cx, y_cent=cy, r=r)
            d = "Circle(%s,%s,r=%s)" % (cx, cy, r)
            cmp_ft(R, w, sh, geom.ellipse_ft(cx, cy, r, r, 0, g), g,
                   max(r * r, .04), d)
            disk(R, w, sh, cx, cy, r, r, 0., d)
    elif w == "ellipse":
        for cx, cy, (rx, ry), phi in itertools.product(
                cents, cents, [(.2, .2), (.1, .4), (.45, .15)],
                [0., np.pi / 6, np.pi / 2, 2., -0.4, np.pi]):
            R.state((w, cx, cy, rx, ry, phi))
            sh = legume.Ellipse(eps=3., x_cent=cx, y_cent=cy, rx=rx, ry=ry,
                                phi=phi)
            d = "Ellipse(%s,%s,rx=%s,ry=%s,phi=%.3f)" % (cx, cy, rx, ry, phi)
            cmp_ft(R, w, sh, geom.ellipse_ft(cx, cy, rx, ry, phi, g), g,
                   max(rx * ry, .04), d)
            disk(R, w, sh, cx, cy, rx, ry, phi, d)
            if rx == ry:
                ci = legume.Circle(eps=3., x_cent=cx, y_cent=cy, r=rx)
                R.check(np.allclose(ci.compute_ft(g), sh.compute_ft(g),
                                    atol=1e-8), "ellipse:circle", d)
    elif w in ("square", "hexagon"):
        for cx, cy, a in itertools.product(cents, cents, [.1, .3, .6]):
            R.state((w, cx, cy, a))
            if w == "square":
                v = np.array([(-a / 2, -a / 2), (a / 2, -a / 2),
                              (a / 2, a / 2), (-a / 2, a / 2)])
                sh = legume.Square(eps=2, x_cent=cx, y_cent=cy, a=a)
            else:
                t = np.arange(6) * np.pi / 3
                v = a * np.array([np.cos(t), np.sin(t)]).T
                sh = legume.Hexagon(eps=2, x_cent=cx, y_cent=cy, a=a)
            v = v + np.array([cx, cy])
            d = "%s(%s,%s,a=%s)" % (w, cx, cy, a)
            cmp_ft(R, w, sh, geom.poly_ft(v, g), g, max(.04, 3 * a * a), d)
            cmp_inside_poly(R, w, sh, v, d)
    elif w == "fourier":
        for cx, cy, (fa, fb), npts in itertools.product(
                [-.2, .3], [0., .25], FOURIER, [8, 25, 60]):
            R.state((w, cx, cy, fa, fb, npts))
            sh = legume.FourierShape(eps=2, x_cent=cx, y_cent=cy,
                                     f_as=np.array(fa), f_bs=np.array(fb),
                                     npts=npts)
            v = fourier_verts(cx, cy, fa, fb, npts)
            d = "FourierShape(%s,%s,%s,%s,npts=%d)" % (cx, cy, fa, fb, npts)
            cmp_ft(R, w, sh, geom.poly_ft(v, g, 16), g, .25, d)
            cmp_inside_poly(R, w, sh, v, d)
    elif w == "forms":
        # the accepted input forms of the wavevector list agree
        gg = gset(1)
        shapes = [legume.Circle(r=.3, x_cent=.1), legume.Square(a=.4, y_cent=.2),
                  legume.Ellipse(rx=.2, ry=.3, phi=.5, x_cent=.2),
                  legume.Hexagon(a=.2)]
        for k, sh in enumerate(shapes):
            R.state((w, k))
            a = sh.compute_ft(gg)
            b = sh.compute_ft(gg.tolist())
            t = sh.compute_ft(np.ascontiguousarray(gg.T))
            R.step(3)
            R.trace(2)
            R.check(np.allclose(a, b) and np.allclose(a, t), "forms",
                    "list / transposed wavevectors disagree for shape %d" % k)
            for n in (1, 3, 5):
                for j in range(gg.shape[1] - n + 1):
                    s = sh.compute_ft(gg[:, j:j + n])
                    R.step()
                    if not np.allclose(s, a[j:j + n], atol=1e-9):
                        R.fail("forms:subset", "coefficient depends on which "
                               "other wavevectors are requested: shape %d" % k)
                        return
    elif w == "clockwise":
        for size, nv in ((3, 3), (3, 4)):
            for p in geom.simple_polygons(size, nv):
                R.state((w, p))
                v = np.array(p[::-1], float) * .3 - .3
                R.step()
                R.trace()
                try:
                    legume.Poly(eps=1., x_edges=v[:, 0], y_edges=v[:, 1])
                    R.fail("clockwise", "clockwise polygon %s accepted" % (p, ))
                except ValueError:
                    R.outcome("rejected")
    elif w == "bad_fourier":
        phis = np.linspace(0, 2 * np.pi, 101)
        for a0, a1, b1 in itertools.product([.1, .4], [0, .1, .3, -.3],
                                            [0, .3, -.1]):
            rmin = (a0 / 2 + a1 * np.cos(phis) + b1 * np.sin(phis)).min()
            if abs(rmin) < 1e-9:
                continue
            R.state((w, a0, a1, b1))
            R.step()
            R.trace()
            try:
                legume.FourierShape(f_as=np.array([a0, a1]),
                                    f_bs=np.array([b1]), npts=100)
                R.check(rmin >= 0, "bad_fourier", "negative radius accepted: "
                        "%s %s %s" % (a0, a1, b1))
            except ValueError:
                R.check(rmin < 0, "bad_fourier", "valid FourierShape rejected:"
                        " %s %s %s" % (a0, a1, b1))


FOURIER = [((.5, ), ()), ((.5, .05), ()), ((.5, 0., .1), (.05, )),
           ((.4, ), (0., 0., .08)), ((.4, .02, 0., .06), (0., .04))]


def fourier_verts(cx, cy, fa, fb, npts):
    t = 2 * np.pi * np.arange(npts) / npts
    r = fa[0] / 2 + sum(a * np.cos((n + 1) * t) for n, a in enumerate(fa[1:]))
    r = r + sum(b * np.sin((n + 1) * t) for n, b in enumerate(fb))
    return np.array([cx + r * np.cos(t), cy + r * np.sin(t)]).T


def disk(R, key, sh, cx, cy, rx, ry, phi, d):
    dx, dy = XG - cx, YG - cy
    u = np.cos(phi) * dx + np.sin(phi) * dy
    v = -np.sin(phi) * dx + np.cos(phi) * dy
    q = (u / rx)**2 + (v / ry)**2
    got = np.asarray(sh.is_inside(XG, YG)).astype(bool)
    R.step()
    R.trace()
    ok = (got == (q <= 1)) | (np.abs(q - 1) < 1e-6)
    if not ok.all():
        R.fail(key + ":inside", "%s membership wrong at %d points" %
               (d, (~ok).sum()))


def rotations(c, R):
    import legume
    mk = [
        lambda: legume.Square(eps=2, x_cent=.2, y_cent=-.1, a=.3),
        lambda: legume.Hexagon(eps=2, x_cent=-.2, y_cent=.1, a=.2),
        lambda: legume.Poly(eps=2, x_edges=[0., .4, .1], y_edges=[0., .1, .5]),
        lambda: legume.Poly(eps=2, x_edges=[.3, .7, .7, .5, .5, .3],
                            y_edges=[.2, .2, .4, .4, .6, .6]),
        lambda: legume.FourierShape(eps=2, x_cent=.1, y_cent=.2,
                                    f_as=np.array([.5, 0., .1]),
                                    f_bs=np.array([.05]), npts=12),
        lambda: legume.Poly(eps=2, x_edges=[0., .4, .4, 0., 0.],
                            y_edges=[0., 0., .2, .2, 0.]),
    ][c["base"]]
    vs = [
        np.array([(.05, -.25), (.35, -.25), (.35, .05), (.05, .05)]),
        np.array([(-.2 + .2 * np.cos(t), .1 + .2 * np.sin(t))
                  for t in np.arange(6) * np.pi / 3]),
        np.array([(0., 0.), (.4, .1), (.1, .5)]),
        np.array([(.3, .2), (.7, .2), (.7, .4), (.5, .4), (.5, .6), (.3, .6)]),
        fourier_verts(.1, .2, (.5, 0., .1), (.05, ), 12),
        np.array([(0., 0.), (.4, 0.), (.4, .2), (0., .2)]),
    ][c["base"]]
    g = gset(2)
    cen = geom.centroid(vs)
    A = geom.poly_area(vs)
    angles = [np.pi / 2, -np.pi / 6, 1., np.pi]
    for depth in range(1, c["depth"] + 1):
        for seq in itertools.product(range(4), repeat=depth):
            R.state((c["base"], seq))
            sh = mk()
            for k in seq:
                out = sh.rotate(angles[k])
                R.step()
                if out is not sh:
                    R.fail("rotate:return", "rotate must return the shape")
            t = sum(angles[k] for k in seq)
            rot = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
            v = (vs - cen) @ rot.T + cen
            d = "base %d rotated by %s" % (c["base"], seq)
            cmp_ft(R, "rotate", sh, geom.poly_ft(v, g), g, .25, d)
            cmp_inside_poly(R, "rotate", sh, v, d)
            R.check(abs(float(np.squeeze(sh.area)) - A) < 1e-6, "rotate:area",
                    d)
