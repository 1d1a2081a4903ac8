"""Small alphabet of lattices, shapes and layer stacks, with exact references."""
import numpy as np
from vk import geom

H3 = np.sqrt(3) / 2
LATTICES = {
    "square": ("square", ),
    "hexagonal": ("hexagonal", ),
    "rect": ([1., 0.], [0., 1.3]),
    "oblique": ([1.1, 0.], [0.4, 1.2]),
    "skew": ([1., 0.], [2.2, 1.1]),
    "rotated": ([0.8, 0.6], [-0.6, 0.8]),
    "left": ([.2, 1.], [1.1, -.1]),
}

_P = np.array
TRI = _P([(-.05, .15), (.3, .2), (.1, .42)])
LSH = _P([(-.4, -.4), (-.1, -.4), (-.1, -.3), (-.3, -.3), (-.3, -.05),
          (-.4, -.05)])
# name -> (kind, params, vertices or ellipse parameters)
SHAPES = {
    "circle0": ("circle", dict(x_cent=0., y_cent=0., r=.3)),
    "circle": ("circle", dict(x_cent=.12, y_cent=-.15, r=.2)),
    "ellipse": ("ellipse", dict(x_cent=-.1, y_cent=.05, rx=.3, ry=.12,
                                phi=.7)),
    "ellipse0": ("ellipse", dict(x_cent=0., y_cent=0., rx=.35, ry=.2, phi=0.)),
    # centred at opposite points
    "cp": ("circle", dict(x_cent=.23, y_cent=.1, r=.17)),
    "cm": ("circle", dict(x_cent=-.23, y_cent=-.1, r=.17)),
    "tri": ("poly", TRI),
    "lsh": ("poly", LSH),
    "square0": ("poly", _P([(-.2, -.2), (.2, -.2), (.2, .2), (-.2, .2)])),
    "strip": ("poly", _P([(-.25, -.5), (.25, -.5), (.25, .5), (-.25, .5)])),
}


def lattice(legume, name):
    return legume.Lattice(*LATTICES[name])


def make_shape(legume, name, eps):
    kind, p = SHAPES[name]
    if kind == "circle":
        return legume.Circle(eps=eps, **p)
    if kind == "ellipse":
        return legume.Ellipse(eps=eps, **p)
    return legume.Poly(eps=eps, x_edges=list(p[:, 0]), y_edges=list(p[:, 1]))


def shape_ft(name, g):
    kind, p = SHAPES[name]
    if kind == "circle":
        return geom.ellipse_ft(p["x_cent"], p["y_cent"], p["r"], p["r"], 0, g)
    if kind == "ellipse":
        return geom.ellipse_ft(p["x_cent"], p["y_cent"], p["rx"], p["ry"],
                               p["phi"], g)
    return geom.poly_ft(p, g)


def shape_area(name):
    kind, p = SHAPES[name]
    if kind == "circle":
        return np.pi * p["r"]**2
    if kind == "ellipse":
        return np.pi * p["rx"] * p["ry"]
    return geom.poly_area(p)


_cache = {}


def shape_ft_cached(name, g):
    """shape_ft with a per-process memo over individual wavevectors."""
    keys = [(name, round(x, 9), round(y, 9)) for x, y in g.T]
    miss = [i for i, k in enumerate(keys) if k not in _cache]
    if miss:
        for a in range(0, len(miss), 64):
            m = miss[a:a + 64]
            v = shape_ft(name, g[:, m])
            for i, x in zip(m, v):
                _cache[keys[i]] = x
    return np.array([_cache[k] for k in keys])


def eps_ft(layer, area, g):
    """layer = (eps_b, [(shape, eps), ...]); exact Fourier coefficients."""
    eb, shapes = layer
    out = np.where(np.hypot(g[0], g[1]) < 1e-9, eb, 0).astype(complex)
    for nm, e in shapes:
        out += (e - eb) * shape_ft_cached(nm, g) / area
    return out


def eps_avg(layer, area):
    eb, shapes = layer
    return eb + sum((e - eb) * shape_area(n) for n, e in shapes) / area


def build_phc(legume, lat, stack):
    """stack = dict(l=(eps,shapes), u=(eps,shapes), layers=[(d,eps,shapes)])."""
    phc = legume.PhotCryst(lat, eps_l=stack["l"][0], eps_u=stack["u"][0])
    for d, e, sh in stack["layers"]:
        phc.add_layer(d=d, eps_b=e)
        for n, es in sh:
            phc.add_shape(make_shape(legume, n, es))
    for c, key in ((0, "l"), (1, "u")):
        for n, es in stack[key][1]:
            phc.add_shape(make_shape(legume, n, es), cladding=c)
    return phc


def stack_layers(stack):
    """All layers bottom to top including claddings as (eps_b, shapes)."""
    return [tuple(stack["l"])] + [(e, s) for _, e, s in stack["layers"]] + \
        [tuple(stack["u"])]
