"""Independent reference geometry: exact integrals by quadrature, winding test."""
import itertools
import numpy as np

_GL = {}


def gl(n):
    if n not in _GL:
        x, w = np.polynomial.legendre.leggauss(n)
        _GL[n] = ((x + 1) / 2, w / 2)
    return _GL[n]


def poly_ft(verts, g, n=28):
    """int_polygon exp(-i g.r) dA by a signed triangle fan + Duffy quadrature."""
    v = np.asarray(verts, float)
    u, wu = gl(n)
    U, V = np.meshgrid(u, u, indexing="ij")
    W = np.outer(wu, wu) * U  # Duffy jacobian
    out = np.zeros(g.shape[1], complex)
    for j in range(1, len(v) - 1):
        e1, e2 = v[j] - v[0], v[j + 1] - v[0]
        jac = e1[0] * e2[1] - e1[1] * e2[0]
        if jac == 0:
            continue
        a, b = U * (1 - V), U * V
        px = (v[0][0] + a * e1[0] + b * e2[0]).ravel()
        py = (v[0][1] + a * e1[1] + b * e2[1]).ravel()
        ph = np.exp(-1j * (np.outer(g[0], px) + np.outer(g[1], py)))
        out += jac * (ph @ W.ravel())
    return out


def ellipse_ft(cx, cy, rx, ry, phi, g, n=40, m=96):
    """int_ellipse exp(-i g.r) dA by polar quadrature of the affine image."""
    r, wr = gl(n)
    t = 2 * np.pi * np.arange(m) / m
    Rr, T = np.meshgrid(r, t, indexing="ij")
    W = np.outer(wr * r, np.ones(m) * 2 * np.pi / m).ravel() * rx * ry
    X, Y = (rx * Rr * np.cos(T)).ravel(), (ry * Rr * np.sin(T)).ravel()
    px = cx + np.cos(phi) * X - np.sin(phi) * Y
    py = cy + np.sin(phi) * X + np.cos(phi) * Y
    return np.exp(-1j * (np.outer(g[0], px) + np.outer(g[1], py))) @ W


def poly_area(v):
    v = np.asarray(v, float)
    x, y = v[:, 0], v[:, 1]
    return 0.5 * float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))


def centroid(v):
    v = np.asarray(v, float)
    x, y = v[:, 0], v[:, 1]
    x1, y1 = np.roll(x, -1), np.roll(y, -1)
    c = x * y1 - x1 * y
    A = c.sum() / 2
    return np.array([((x + x1) * c).sum(), ((y + y1) * c).sum()]) / 6 / A


def poly_inside(v, px, py):
    """Winding number test plus distance to the boundary."""
    v = np.asarray(v, float)
    w = np.zeros(px.shape)
    dist = np.full(px.shape, np.inf)
    n = len(v)
    for j in range(n):
        a, b = v[j], v[(j + 1) % n]
        ax, ay, bx, by = a[0] - px, a[1] - py, b[0] - px, b[1] - py
        w += np.arctan2(ax * by - ay * bx, ax * bx + ay * by)
        e = b - a
        L2 = e @ e
        if L2 == 0:
            continue
        t = np.clip(((px - a[0]) * e[0] + (py - a[1]) * e[1]) / L2, 0, 1)
        dist = np.minimum(dist, np.hypot(px - a[0] - t * e[0],
                                         py - a[1] - t * e[1]))
    return np.abs(w) > np.pi, dist


def _cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def _onseg(a, b, p):
    return (_cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def _inter(a, b, c, d):
    s = lambda x: (x > 0) - (x < 0)
    if s(_cross(a, b, c)) * s(_cross(a, b, d)) < 0 and \
       s(_cross(c, d, a)) * s(_cross(c, d, b)) < 0:
        return True
    return _onseg(a, b, c) or _onseg(a, b, d) or _onseg(c, d, a) or \
        _onseg(c, d, b)


def is_simple(p):
    n = len(p)
    for i in range(n):
        for j in range(i + 1, n):
            if j == i + 1 or (i == 0 and j == n - 1):
                # adjacent edges: only share the common vertex
                if n == 3:
                    continue
                if j == i + 1:
                    a, b, c = p[i], p[j], p[(j + 1) % n]
                else:
                    a, b, c = p[j], p[0], p[1]
                if _cross(a, b, c) == 0 and \
                        (a[0] - b[0]) * (c[0] - b[0]) + \
                        (a[1] - b[1]) * (c[1] - b[1]) > 0:
                    return False
                continue
            if _inter(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]):
                return False
    return True


def simple_polygons(size, nv):
    """All simple counter-clockwise polygons with nv vertices on a grid,
    one representative per cyclic rotation (lowest vertex index first)."""
    pts = [(x, y) for x in range(size) for y in range(size)]
    for comb in itertools.combinations(pts, nv):
        for perm in itertools.permutations(comb[1:]):
            p = (comb[0], ) + perm
            a2 = sum(p[i][0] * p[(i + 1) % nv][1] - p[(i + 1) % nv][0] * p[i][1]
                     for i in range(nv))
            if a2 <= 0:
                continue
            if is_simple(p):
                yield p
