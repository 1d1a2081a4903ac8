"""C21: optional arguments have their documented defaults, names and order."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from vk import structs
from vk.stacks import S

PROPERTY = "C21"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "defaults, names and order of the arguments are those of the documented "
    "call signatures, written down in the check",
    "results are compared through public attributes and return values; plots "
    "through their artists",
    "only whether something is printed is compared, not the text (times vary)",
]
BOUNDS = {
    "quick": "every public constructor, solver call, query, plot, export and "
             "optimiser: all subsets of omitted/explicit default values (calls "
             "with more than 6 options: all subsets with at most 2 given or 2 "
             "omitted), every length of the positional prefix with non-default "
             "values, repeated default calls; 2 lattices",
    "thorough": "calls with more than 9 options: at most 3 given or omitted; "
                "4 lattices",
}
ENT = {}


def entry(f):
    ENT[f.__name__[2:]] = f
    return f


class Call:
    """One documented call: fn() gives (callable, observer); req are required
    (name, value) pairs, opts (name, default, other value) triples."""

    def __init__(self, name, fn, req, opts, npos=None, small=False):
        self.name, self.fn, self.req, self.opts = name, fn, req, opts
        self.npos = len(opts) if npos is None else npos
        self.small = small


# ------------------------------------------------------------------ observers
def canon(o, depth=0):
    if o is None or isinstance(o, (bool, str, bytes)):
        return o
    if isinstance(o, (int, float, complex, np.number)):
        return np.asarray(o, dtype=complex)
    if isinstance(o, np.ma.MaskedArray):
        return canon(np.ma.filled(o.astype(float), np.nan))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return [canon(v) for v in o.ravel()]
        return o.astype(complex) if o.dtype.kind in "iufcb" else o.tolist()
    if isinstance(o, dict):
        return [(str(k), canon(o[k])) for k in sorted(o, key=str)]
    if isinstance(o, (list, tuple)):
        return [canon(v) for v in o]
    return type(o).__name__


def same(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        with np.errstate(all="ignore"):
            na, nb = np.isfinite(a), np.isfinite(b)
            if not np.array_equal(na, nb):
                return False
            sc = max(np.max(np.abs(a[na])), 1e-12) if na.any() else 1.
            return bool(np.all(np.abs(a[na] - b[na]) <= 1e-12 * sc))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and not isinstance(a, np.ndarray) and a == b


def fig_dump(_):
    out = []
    for n in plt.get_fignums():
        fig = plt.figure(n)
        f = [canon(fig.get_size_inches())]
        for ax in fig.axes:
            a = [ax.get_title(), ax.get_xlabel(), ax.get_ylabel(),
                 canon(ax.get_xlim()), canon(ax.get_ylim()),
                 str(ax.get_aspect()), canon(ax.get_position().bounds),
                 ax.axison]
            for im in ax.images:
                a.append(("image", canon(im.get_array()),
                          canon(im.get_extent()), canon(im.get_clim()),
                          im.get_cmap().name, im.origin))
            for l in ax.lines:
                a.append(("line", canon(l.get_xydata()),
                          canon(matplotlib.colors.to_rgba(l.get_color())),
                          canon(l.get_linewidth()), str(l.get_linestyle()),
                          str(l.get_marker()), canon(l.get_markersize()),
                          canon(matplotlib.colors.to_rgba(
                              l.get_markeredgecolor())),
                          canon(l.get_markeredgewidth())))
            for c in ax.collections:
                ar = c.get_array()
                a.append(("coll", type(c).__name__,
                          canon(np.ma.filled(c.get_offsets().astype(float),
                                             np.nan)),
                          canon(None if ar is None else np.asarray(
                              np.ma.filled(ar.astype(float), np.nan))),
                          canon(c.get_facecolor()), canon(c.get_edgecolor()),
                          canon(np.asarray(c.get_linewidth())),
                          canon(np.asarray(getattr(c, "get_sizes", list)())),
                          canon(c.get_clim()),
                          c.get_cmap().name if ar is not None else "",
                          [canon(p.vertices) for p in c.get_paths()]))
            for p in ax.patches:
                a.append(("patch", type(p).__name__,
                          canon(p.get_path().vertices),
                          canon(p.get_facecolor()), canon(p.get_edgecolor()),
                          canon(p.get_linewidth())))
            a.append([canon(ax.get_xticks()),
                      [t.get_text() for t in ax.get_xticklabels()]])
            lg = ax.get_legend()
            a.append([t.get_text() for t in lg.get_texts()] if lg else None)
            f.append(a)
        out.append(f)
    plt.close("all")
    return out


def phc_of(l, lat, st="hole"):
    return structs.build_phc(l, structs.lattice(l, lat), S[st])


def eps_points(phc):
    x, y = np.meshgrid(np.linspace(-.6, .7, 5), np.linspace(-.5, .6, 4))
    out = []
    for z in (-.5, .05, .12, .3, .55, 5.):
        out.append(canon(phc.get_eps((x, y, z * np.ones(x.shape)))))
    return out


def shape_obs(s):
    x, y = np.meshgrid(np.linspace(-.6, .7, 6), np.linspace(-.5, .6, 7))
    g = np.array([[0., 1.3, 2., -.7], [0., 2.1, 0., .4]])
    return canon([s.eps, s.area, s.compute_ft(g), s.is_inside(x, y)])


# -------------------------------------------------------------------- entries
@entry
def e_structure(l, lat, tmp):
    L = lambda: structs.lattice(l, lat)

    def cl(phc):
        return [canon([phc.claddings[0].eps_b, phc.claddings[1].eps_b,
                       [(y.eps_b, y.z_min, y.z_max, len(y.shapes))
                        for y in phc.layers]])] + eps_points(phc)

    def add_layer():
        phc = l.PhotCryst(L())
        phc.add_layer(d=.1, eps_b=3.)
        return phc.add_layer, lambda _: cl(phc)

    def add_shape():
        phc = l.PhotCryst(L())
        for _ in range(3):
            phc.add_layer(d=.2, eps_b=3.)
        return phc.add_shape, lambda _: [
            canon([len(y.shapes) for y in phc.claddings + phc.layers])
        ] + eps_points(phc)

    def z_grid():
        phc = phc_of(l, lat, "two")
        return phc.z_grid, canon

    def add_qw():
        phc = phc_of(l, lat)
        return phc.add_qw, lambda _: canon(
            [(q.z, q.V_shapes, q.a, q.M, q.E0, q.loss, q.osc_str)
             for q in phc.qws])

    yield Call("PhotCryst", lambda: (l.PhotCryst, cl), [("lattice", L())],
               [("eps_l", 1., 2.2), ("eps_u", 1., 3.1)])
    yield Call("add_layer", add_layer, [("d", .3)],
               [("eps_b", 1., 5.), ("layer_type", "shapes", "Shapes")])
    yield Call("add_shape", add_shape,
               [("shapes", l.Circle(eps=2., x_cent=.1, y_cent=0., r=.2))],
               [("layer", -1, 1), ("cladding", None, 1)])
    yield Call("z_grid", z_grid, [], [("Nz", 100, 7), ("dist", 1., .3)])
    yield Call("add_qw", add_qw,
               [("z", .1), ("V_shapes", .02), ("a", 3e-7), ("M", 1e-31),
                ("E0", 1.4), ("loss", 1e-3), ("osc_str", [1e16, 2e16, 3e16])],
               [])
    yield Call("ShapesLayer", lambda: (l.ShapesLayer, lambda y: canon(
        [y.z_min, y.z_max, y.d, y.eps_b, y.eps_avg])), [("lattice", L())],
        [("z_min", 0., -.2), ("z_max", 0., .7), ("eps_b", 1., 4.)])
    yield Call("xy_grid", lambda: (L().xy_grid, canon), [],
               [("Nx", 100, 5), ("Ny", 100, 4), ("periods", None, [2., 3.])])
    yield Call("bz_path", lambda: (L().bz_path, canon),
               [("pts", ["G", [.3, .7], "G"]), ("ns", [2, 3])],
               [("symm_g", [np.pi, 0], [.2, .3])])
    yield Call("Lattice", lambda: (l.Lattice, lambda y: canon(
        [y.a1, y.a2, y.b1, y.b2])), [], [])


@entry
def e_shapes(l, lat, tmp):
    E = ("eps", 1., 3.)
    X, Y = ("x_cent", 0., .21), ("y_cent", 0., -.13)
    px, py = [.3, -.2, -.1], [.1, .4, -.3]
    for n, opts in (
        ("Circle", [E, X, Y, ("r", 0., .3)]),
        ("Ellipse", [E, X, Y, ("rx", 0., .3), ("ry", 0., .2), ("phi", 0.,
                                                               .5)]),
        ("Poly", [E, ("x_edges", [0.], px), ("y_edges", [0.], py)]),
        ("Square", [E, X, Y, ("a", 0., .3)]),
        ("Hexagon", [E, X, Y, ("a", 0., .3)]),
        ("FourierShape", [E, X, Y, ("f_as", np.array([0.]),
                                    np.array([.5, .1])),
                          ("f_bs", np.array([]), np.array([.07, .02])),
                          ("npts", 100, 37)])):
        yield Call(n, lambda n=n: (getattr(l, n), shape_obs), [], opts)
    # the same with the sizes given, so that the other defaults are visible
    yield Call("Circle:r", lambda: (l.Circle, shape_obs), [("r", .3)],
               [E, X, Y], 0)
    yield Call("Ellipse:r", lambda: (l.Ellipse, shape_obs),
               [("rx", .3), ("ry", .15)], [E, X, Y, ("phi", 0., .4)], 0)
    yield Call("Square:a", lambda: (l.Square, shape_obs), [("a", .3)],
               [E, X, Y], 0)
    yield Call("Hexagon:a", lambda: (l.Hexagon, shape_obs), [("a", .3)],
               [E, X, Y], 0)
    yield Call("Fourier:a", lambda: (l.FourierShape, shape_obs),
               [("f_as", np.array([.5, .1, .05]))],
               [E, X, Y, ("f_bs", np.array([]), np.array([.07, .02])),
                ("npts", 100, 37)], 0)
    yield Call("Fourier:ab", lambda: (l.FourierShape, shape_obs),
               [("f_as", np.array([.5, .1])), ("f_bs", np.array([.07]))],
               [E, X, Y, ("npts", 100, 37)], 0)
    yield Call("Poly:xy", lambda: (l.Poly, shape_obs),
               [("x_edges", px), ("y_edges", py)], [E], 0)
    for n, kw in (("Square", dict(a=.3)), ("Hexagon", dict(a=.3)),
                  ("Poly", dict(x_edges=px, y_edges=py))):
        def rot(n=n, kw=kw):
            s = getattr(l, n)(**kw)
            return s.rotate, lambda r: shape_obs(s)
        yield Call(n + ".rotate", rot, [("angle", .3)], [])


def alone(f):
    """Which levels are well separated from all others of their row."""
    f = np.atleast_2d(np.real(np.asarray(f)))
    out = np.ones(f.shape, bool)
    for i in range(f.shape[1]):
        for j in range(f.shape[1]):
            if i != j:
                out[:, i] &= np.abs(f[:, i] - f[:, j]) > 1e-3
    out[:, -1] = False      # its partner may not have been asked for
    return out


def vecs(v, f):
    return canon(np.abs(np.asarray(v)) * alone(f)[0])


def gme_obs(g):
    def f(_):
        gv, w = np.asarray(g.gvec), alone(g.freqs)
        out = [canon(g.freqs), canon(gv), canon(g.kpoints),
               vecs(g.eigvecs[0], g.freqs)]
        for n in ("freqs_im", "unbalance_sp"):
            v = np.asarray(getattr(g, n, []))
            out.append(canon(np.where(w, v, 0) if v.shape == w.shape
                             else v.shape))
        for n in ("kz_symms", "angles"):
            out.append(canon(getattr(g, n, None)))
        return out
    return f


@entry
def e_gme(l, lat, tmp):
    phc = phc_of(l, lat, "asym")

    def init(g):
        g.run(kpoints=np.array([[.4], [.3]]), gmode_inds=[0, 1], numeig=3,
              compute_im=False, verbose=False)
        return [canon(g.freqs), canon(np.asarray(g.gvec))]

    yield Call("GuidedModeExp", lambda: (l.GuidedModeExp, init),
               [("phc", phc)], [("gmax", 3., 1.3), ("truncate_g", "abs",
                                                   "tbt")], small=True)

    def run(tr="abs", gmax=2.01):
        g = l.GuidedModeExp(phc, gmax=gmax, truncate_g=tr)
        return g.run, gme_obs(g)

    RO = [("gmode_compute", "exact", "interp"), ("gmode_inds", [0], [0, 1]),
          ("gmode_npts", 1000, 50), ("gmode_step", 1e-2, 1e-3),
          ("gmode_tol", 1e-10, 1e-6), ("numeig", 10, 4),
          ("compute_im", True, False), ("gradients", "exact", "approx"),
          ("eig_solver", "eigh", "eigsh"), ("eig_sigma", 0., .6),
          ("eps_eff", "average", "background"), ("verbose", True, False),
          ("kz_symmetry", None, "both"), ("symm_thr", 1e-8, 1e-6),
          ("delta_gx", 1e-15, 1e-12), ("delta_gabs", 1e-15, 1e-12),
          ("use_sparse", False, True), ("only_gmodes", False, True)]
    yield Call("gme.run", run, [],
               [("kpoints", np.array([[0], [0]]), np.array([[.4], [0.]])),
                ("angles", np.array([]), np.array([0.]))] + RO, 2)
    K = [("kpoints", np.array([[.5, 1.3], [.2, 0.]]))]
    yield Call("gme.run:k", run, K, RO, 0)
    yield Call("gme.run:interp", run, K + [("gmode_compute", "interp")],
               RO[1:8], 0)
    def rune():
        # Arnoldi iterations start from a random vector
        g = l.GuidedModeExp(phc, gmax=2.01)
        return g.run, lambda _: canon(np.round(g.freqs, 8))
    yield Call("gme.run:eigsh", rune, K + [("eig_solver", "eigsh"),
                                          ("gmode_inds", [0, 1, 2])],
               [RO[0], RO[2]] + RO[5:8] + [RO[9]], 0)
    phs = phc_of(l, "square", "hole")

    def runs():
        g = l.GuidedModeExp(phs, gmax=2.01)
        return g.run, gme_obs(g)
    yield Call("gme.run:symm", runs,
               [("kpoints", np.array([[.5, 1.3], [0., 0.]])),
                ("kz_symmetry", "both"), ("numeig", 6)],
               [("angles", np.array([]), np.array([0., 0.])), RO[1], RO[3],
                RO[6], RO[9], RO[13], RO[16]], 0)

    def solved(m="run"):
        g = l.GuidedModeExp(phc, gmax=1.5)
        g.run(kpoints=np.array([[.5], [.2]]), gmode_inds=[0, 1], numeig=4,
              compute_im=False, verbose=False)
        return g

    def meth(n):
        def f():
            g = solved()
            return getattr(g, n), canon
        return f
    C = ("component", "xyz", "zx")
    NX, NY, NZ = ("Nx", 100, 5), ("Ny", 100, 4), ("Nz", 100, 6)
    gx, gy = ("xgrid", None, np.array([.1, .5])), ("ygrid", None,
                                                  np.array([.2, .3, .7]))
    gz = ("zgrid", None, np.array([-.2, .1]))
    yield Call("get_field_xy", meth("get_field_xy"),
               [("field", "E"), ("kind", 0), ("mind", 1), ("z", .1)],
               [gx, gy, C, NX, NY])
    yield Call("get_field_xz", meth("get_field_xz"),
               [("field", "H"), ("kind", 0), ("mind", 1), ("y", .1)],
               [gx, gz, C, NX, NZ, ("dist", 1., .4)])
    yield Call("get_field_yz", meth("get_field_yz"),
               [("field", "D"), ("kind", 0), ("mind", 1), ("x", .1)],
               [gy, gz, C, NY, NZ, ("dist", 1., .4)])
    yield Call("gme.get_eps_xy", meth("get_eps_xy"), [("z", .1)],
               [gx, gy, NX, NY])
    yield Call("compute_rad", meth("compute_rad"), [("kind", 0)],
               [("minds", [0], [2, 1])])
    yield Call("compute_rad_sp", meth("compute_rad_sp"), [("kind", 0)],
               [("minds", [0], [2, 1])])


@entry
def e_pwe(l, lat, tmp):
    ly = phc_of(l, lat, "hole").layers[0]

    def obs(p):
        p.run(kpoints=np.array([[.4], [.3]]), numeig=4)
        return canon([p.freqs, np.asarray(p.gvec)])

    yield Call("PlaneWaveExp", lambda: (l.PlaneWaveExp, obs), [("layer", ly)],
               [("gmax", 3., 1.5), ("eps_eff", None, 7.)])

    def run():
        p = l.PlaneWaveExp(ly, gmax=2.01)
        return p.run, lambda _: canon([p.freqs, p.kpoints,
                                       vecs(p.eigvecs[0], p.freqs)])
    yield Call("pwe.run", run, [],
               [("kpoints", np.array([[0], [0]]), np.array([[.4], [.1]])),
                ("pol", "te", "tm"), ("numeig", 10, 3)])
    yield Call("pwe.run:k", run, [("kpoints", np.array([[.3, 1.], [.1, .4]]))],
               [("pol", "te", "tm"), ("numeig", 10, 3)])

    def meth(n, pol):
        def f():
            p = l.PlaneWaveExp(ly, gmax=1.5)
            p.run(kpoints=np.array([[.5], [.2]]), numeig=4, pol=pol)
            return getattr(p, n), canon
        return f
    for pol in ("te", "tm"):
        yield Call("pwe.get_field_xy:" + pol, meth("get_field_xy", pol),
                   [("field", "e" if pol == "te" else "h"), ("kind", 0),
                    ("mind", 2)],
                   [("z", 0., .3), ("component", "xyz", "yx"),
                    ("Nx", 100, 5), ("Ny", 100, 4)])
    yield Call("pwe.get_eps_xy", meth("get_eps_xy", "te"), [],
               [("Nx", 100, 5), ("Ny", 100, 4), ("z", 0., .2)])


@entry
def e_exc(l, lat, tmp):
    import scipy.constants as sc
    phc = phc_of(l, lat, "hole")
    for _ in (0, 1):
        phc.add_qw(z=.1 + .05 * _, V_shapes=.01, a=3e-7, M=.2 * sc.m_e,
                   E0=1.41, loss=1e-4, osc_str=np.array([1e17, 1e17, 0.]))
    req = [("phc", phc), ("z", .1), ("V_shapes", .02), ("a", 2e-7),
           ("M", .1 * sc.m_e), ("E0", 1.3), ("loss", 1e-3)]
    osc = ("osc_str", None, np.array([1e16, 2e16, 0.]))

    def obs(x):
        x.run(kpoints=np.array([[.4], [.3]]), numeig_ex=4, verbose_ex=False)
        return canon([x.eners, np.asarray(x.gvec), x.osc_str,
                      vecs(x.eigvecs[0], 1e3 * np.real(x.eners))])

    def run():
        x = l.ExcitonSchroedEq(phc=phc, z=.1, V_shapes=.02, a=2e-7,
                               M=.1 * sc.m_e, E0=1.3, loss=1e-3,
                               osc_str=np.array([1e16, 0., 0.]), gmax=2.01)
        return x.run, lambda _: canon([x.eners, x.kpoints,
                                       vecs(x.eigvecs[0], 1e3 * np.real(x.eners))])

    def meth(n):
        def f():
            x = run()[0].__self__
            x.run(kpoints=np.array([[.4], [.3]]), numeig_ex=4,
                  verbose_ex=False)
            return getattr(x, n), canon
        return f
    yield Call("ExcitonSchroedEq", lambda: (l.ExcitonSchroedEq, obs), req,
               [osc, ("gmax", 3., 1.5), ("truncate_g", "abs", "tbt")])
    X = [("numeig_ex", 10, 3), ("verbose_ex", True, False)]
    yield Call("exc.run", run, [],
               [("kpoints", np.array([[0], [0]]), np.array([[.4], [.1]]))] +
               X, 1)
    yield Call("get_pot_xy", meth("get_pot_xy"), [],
               [("Nx", 100, 5), ("Ny", 100, 4)])
    yield Call("get_wavef_xy", meth("get_wavef_xy"),
               [("kind", 0), ("mind", 1)], [("Nx", 100, 5), ("Ny", 100, 4)])

    def pobs(h):
        h.run(gme_options=dict(verbose=False, numeig=3),
              exc_options=dict(verbose_ex=False, numeig_ex=2),
              kpoints=np.array([[.4], [.3]]), verbose=False)
        return canon([h.eners, np.asarray(h.gvec)])

    def prun():
        h = l.HopfieldPol(phc, 2.01)
        return h.run, lambda _: canon([h.eners, h.eners_im, h.kpoints])
    yield Call("HopfieldPol", lambda: (l.HopfieldPol, pobs),
               [("phc", phc), ("gmax", 1.5)], [("truncate_g", "abs", "tbt")])
    G = dict(verbose=False, numeig=3)
    yield Call("pol.run", prun, [],
               [("gme_options", {}, G),
                ("exc_options", {}, dict(verbose_ex=False, numeig_ex=2)),
                ("kpoints", np.array([[0], [0]]), np.array([[.4], [.1]])),
                ("verbose", True, False)])
    yield Call("pol.run:k", prun, [("kpoints", np.array([[.3], [.2]]))],
               [("gme_options", {}, G), ("verbose", True, False)], 0)


@entry
def e_slabs(l, lat, tmp):
    from legume.gme.slab_modes import guided_modes, rad_modes
    a = np.array
    req = [("g_array", a([.4, 2., 5.])), ("eps_array", a([1., 9., 4., 2.])),
           ("d_array", a([.4, .3]))]
    yield Call("guided_modes", lambda: (guided_modes, canon), req,
               [("n_modes", 1, 3), ("step", 1e-3, 3e-2), ("tol", 1e-4, 1e-6),
                ("pol", "TE", "TM")])
    yield Call("rad_modes", lambda: (rad_modes, canon),
               [("omega", 3.)] + [(n, v if n != "g_array" else a([.3, 1.]))
                                  for n, v in req],
               [("pol", "TE", "TM"), ("clad", 0, 1)])
    from legume.utils import grad_num
    yield Call("grad_num", lambda: (grad_num, canon),
               [("fn", lambda x: np.sum(x**3)), ("arg", a([.3, 2.]))],
               [("step_size", 1e-7, 1e-3)])


@entry
def e_export(l, lat, tmp):
    from legume.gds import generate_gds, generate_gds_raster
    from checks.c18 import read_gds
    phc = l.PhotCryst(structs.lattice(l, lat))
    phc.add_layer(d=.2, eps_b=3.)
    phc.add_shape([l.Circle(x_cent=.1, y_cent=0., r=.3),
                   l.Square(x_cent=-.2, y_cent=-.3, a=.25)])
    fn = os.path.join(tmp, "o.gds")

    def obs(_):
        g = read_gds(fn)
        os.remove(fn)
        return canon([g["cells"], g["user"], g["db"],
                      [[c, y, t, np.asarray(p)] for c, y, t, p in
                       g["polys"]]])
    yield Call("generate_gds", lambda: (generate_gds, obs),
               [("phc", phc), ("filename", fn)],
               [("unit", 1e-6, 1e-7), ("tolerance", .01, .1)])
    ras = np.zeros((5, 6))
    ras[1:3, 2:4] = .7
    ras[3, 1] = 1.
    yield Call("generate_gds_raster", lambda: (generate_gds_raster, obs),
               [("lattice", structs.lattice(l, lat)), ("raster", ras),
                ("filename", fn)],
               [("unit", 1e-6, 1e-7), ("tolerance", .01, .1),
                ("cell_bound", True, False), ("levels", [.5], [.3, .8])])


@entry
def e_minimize(l, lat, tmp):
    from legume.minimize import Minimize
    from autograd import numpy as npa

    def of(x, *args):
        args = [v for v in args if not hasattr(v, "lbfgs")]
        c = args[0] if args else 1.
        return npa.sum((x - npa.array([.3, -1.])) ** 4 * npa.array([1., 7.]) +
                       c * x ** 2)
    seen = []

    def mk(n):
        def f():
            m = Minimize(of)
            seen.clear()
            return getattr(m, n), lambda r: canon(
                [r if n == "adam" else
                 [np.asarray(getattr(v, "x", v)) for v in r],
                 m.params, m.of_list, len(seen)])
        return f
    B = ("bounds", None, [-.2, .25])
    common = [("args", (), (2.5,)), ("pass_self", False, True)]
    cb = ("callback", None, lambda x: seen.append(1))
    p = [("pstart", np.array([.9, .4]))]
    yield Call("adam", mk("adam"), p,
               [("Nepochs", 50, 3), B, ("disp_p", False, True),
                ("step_size", 1e-2, .3), ("beta1", .9, .5),
                ("beta2", .999, .8)] + common + [cb])
    yield Call("adam:short", mk("adam"), p + [("Nepochs", 4),
                                              ("step_size", .4)],
               [("beta1", .9, .5), ("beta2", .999, .8), B] + common, 0)
    yield Call("lbfgs", mk("lbfgs"), p,
               [("Nepochs", 50, 3), B, ("disp_p", False, True),
                ("maxfun", 15000, 4)] + common +
               [("res", False, True), cb])


@entry
def e_plots(l, lat, tmp):
    import scipy.constants as sc
    phc = phc_of(l, lat, "hole")
    phc.add_qw(z=.1, V_shapes=.01, a=3e-7, M=.2 * sc.m_e, E0=1.41,
               loss=1e-4, osc_str=np.array([1e17, 1e17, 0.]))
    ks = np.array([[.3, .9, 2.9], [.1, 0., .4]])
    g = l.GuidedModeExp(phc, gmax=1.1)
    g.run(kpoints=ks, gmode_inds=[0, 1], numeig=3, verbose=False)
    gs = l.GuidedModeExp(phc_of(l, "square", "hole"), gmax=1.1)
    gs.run(kpoints=np.array([[.3, .9], [0., 0.]]), angles=np.array([0., 0.]),
           gmode_inds=[0, 1], numeig=3, verbose=False, kz_symmetry="both")
    h = l.HopfieldPol(phc, 1.1)
    h.run(gme_options=dict(gmode_inds=[0, 1], numeig=3, verbose=False),
          exc_options=dict(numeig_ex=2, verbose_ex=False), kpoints=ks,
          verbose=False)
    x = h.exc_list[0]
    v = l.viz

    def V(n):
        def f():
            plt.close("all")
            return getattr(v, n), fig_dump
        return f
    line = [("cone", True, False), ("conecolor", "#eeeeee", "r"),
            ("ax", None, None), ("figsize", (4, 5), (3, 2))]
    mk = [("markersize", 6, 3), ("markeredgecolor", "w", "g"),
          ("markeredgewidth", 1.5, .7)]
    for n, s in (("", g), (":symm", gs)):
        yield Call("bands" + n, V("bands"), [("gme", s)],
                   [("Q", False, True), ("Q_clip", 1e10, 1e3)] + line +
                   [("Q_cmap", "viridis", "Reds")] + mk +
                   [("show_symmetry", True, False), ("eV", False, True),
                    ("a", None, 300.), ("k_units", False, True)], small=True)
    # quality factors on either side of the default clipping values
    for n, de in (("hi", .01), ("vhi", .001)):
        w = l.PhotCryst(l.Lattice("square"))
        w.add_layer(d=.4, eps_b=9.)
        w.add_shape(l.Circle(eps=9 - de, r=.2))
        for sy, m in (("", {}), ("both", dict(kz_symmetry="both",
                                              angles=np.array([0., 0.])))):
            q = l.GuidedModeExp(w, gmax=1.1)
            q.run(kpoints=np.array([[.3, .9], [0., 0.]]), gmode_inds=[0, 1],
                  numeig=4, verbose=False, **m)
            yield Call("bands:Q%s%s" % (n, sy), V("bands"),
                       [("gme", q), ("Q", True)],
                       [("Q_clip", 1e10, 1e3), ("show_symmetry", True,
                                                False)], 0)
    w = phc_of(l, lat, "hole")
    for ls in (.75e-5, .66e-5):
        w.add_qw(z=.1, V_shapes=.01, a=3e-7, M=.2 * sc.m_e, E0=2.9, loss=ls,
                 osc_str=np.array([1e9, 1e9, 0.]))
    q = l.HopfieldPol(w, 1.1)
    q.run(gme_options=dict(gmode_inds=[0, 1], numeig=3, verbose=False),
          exc_options=dict(numeig_ex=2, verbose_ex=False), kpoints=ks,
          verbose=False)
    yield Call("pol_bands:Qhi", V("pol_bands"), [("pol", q)],
               [("Q_clip", 1e5, 1e3), ("Q_min", 1e2, 1.),
                ("Q_max", 1e4, 9e4)], 0)
    yield Call("bands:Q", V("bands"), [("gme", g), ("Q", True)],
               [("Q_clip", 1e10, 1e3), ("Q_cmap", "viridis", "Reds")] + mk +
               [("k_units", False, True)], 0)
    yield Call("pol_bands", V("pol_bands"), [("pol", h)],
               [("Q", True, False), ("fraction", False, True),
                ("Q_clip", 1e5, 1e3)] + line +
               [("Q_cmap", "viridis", "Reds"), ("Q_min", 1e2, 1.),
                ("Q_max", 1e4, 9e4), ("fraction_cmap", "coolwarm", "Reds")] +
               mk + [("k_units", False, True)], small=True)
    yield Call("pol_bands:fr", V("pol_bands"), [("pol", h), ("fraction", True)],
               [("Q", True, False), ("fraction_cmap", "coolwarm", "Reds")] +
               mk, 0)
    ax, im = ("ax", None, None), ("cmap", "Greys", "Reds")
    cl, cb = ("clim", None, [1., 5.]), ("cbar", False, True)
    N = lambda n, d=100: (n, d, 7)
    yield Call("viz.eps", V("eps"), [("layer", phc.layers[0])],
               [N("Nx"), N("Ny"), ax, cl, cb, im])
    for n, c, a1, a2, d2 in (("eps_xz", "y", "Nx", "Nz", 50),
                             ("eps_xy", "z", "Nx", "Ny", 100),
                             ("eps_yz", "x", "Ny", "Nz", 50)):
        yield Call("viz." + n, V(n), [("phc", phc)],
                   [(c, 0., .11), N(a1), N(a2, d2), ax, cl, cb, im,
                    ("cax", None, None), ("plot", True, False)], small=True)
    yield Call("viz.shapes", V("shapes"), [("layer", phc.layers[0])],
               [ax, ("npts", 101, 12), ("color", "k", "r"), ("lw", 1, 3),
                ("pad", True, False)])
    fg = [("gridspec", None, None), ("fig", None, None),
          ("figsize", None, (3, 2))]
    yield Call("viz.structure", V("structure"), [("struct", phc)],
               [N("Nx"), N("Ny"), N("Nz", 50), ("cladding", False, True),
                ("cbar", True, False), im] + fg +
               [("xy", True, False), ("xz", False, True),
                ("yz", False, True)], small=True)
    yield Call("viz.eps_ft", V("eps_ft"), [("struct", g)],
               [N("Nx"), N("Ny"), ("cladding", False, True),
                ("cbar", True, False), im] + fg, small=True)
    yield Call("viz.pot_ft", V("pot_ft"), [("struct", x)],
               [N("Nx"), N("Ny"), ("cbar", True, False), im] + fg, small=True)
    yield Call("viz.field", V("field"),
               [("struct", g), ("field", "H"), ("kind", 0), ("mind", 1),
                ("z", .1)],
               [("x", None, None), ("y", None, None),
                ("periodic", True, False), ("component", "xyz", "xy"),
                ("val", "re", "im"), ("N1", 100, 7), ("N2", 100, 6),
                ("cbar", True, False), ("eps", True, False),
                ("eps_levels", None, [3.])], 0, small=True)
    yield Call("viz.field:pos", V("field"),
               [("struct", g), ("field", "E"), ("kind", 0), ("mind", 1)],
               [("x", None, None), ("y", None, None), ("z", None, .1),
                ("periodic", True, False), ("component", "xyz", "yx"),
                ("val", "re", "im"), ("N1", 100, 7), ("N2", 100, 6),
                ("cbar", True, False), ("eps", True, False),
                ("eps_levels", None, [3.])], small=True)
    yield Call("viz.wavef", V("wavef"),
               [("struct", x), ("kind", 0), ("mind", 1)],
               [("val", "abs2", "re"), ("N1", 100, 7), ("N2", 200, 9),
                ("cbar", True, False)])


# ---------------------------------------------------------------------- engine
def cases(tier):
    th = tier == "thorough"
    out = []
    for e in ENT:
        for lat in (["square", "rect", "hexagonal", "oblique"] if th else
                    ["square", "oblique"]):
            out.append(dict(entry=e, lat=lat, th=th, part=None))
    # the long lists are split over the processes
    res = []
    for c in out:
        n = {"gme": 14, "plots": 12, "exc": 4}.get(c["entry"], 1)
        for i in range(n):
            res.append(dict(c, part=[i, n]))
    return res


def subsets(n, lim):
    names = range(n)
    if n <= 6:
        for k in range(n + 1):
            yield from itertools.combinations(names, k)
        return
    done = set()
    for k in list(range(lim + 1)) + list(range(n - lim, n + 1)):
        for c in itertools.combinations(names, k):
            if c not in done:
                done.add(c)
                yield c


def execute(call, args, kw):
    fn, obs = call.fn()
    buf = io.StringIO()
    err = res = None
    import warnings
    with contextlib.redirect_stdout(buf), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = fn(*args, **kw)
        except Exception as e:
            err = type(e).__name__
        else:
            res = obs(r)
    plt.close("all")
    return err, bool(buf.getvalue().strip()), res


def cp(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, dict)):
        return type(v)(v)
    return v


def run_case(case, R):
    import legume
    from vk.core import Recorder  # noqa: F401
    tmp = tempfile.mkdtemp(prefix="vk_c21_")
    try:
        legume.set_backend("autograd" if case["entry"] == "minimize"
                           else "numpy")
        i, n = case["part"]
        j = 0
        for call in ENT[case["entry"]](legume, case["lat"], tmp):
            for job in jobs(call, 3 if case["th"] else 2):
                if j % n == i:
                    one(R, call, job, case)
                j += 1
    finally:
        legume.set_backend("numpy")
        plt.close("all")
        shutil.rmtree(tmp, ignore_errors=True)


def jobs(call, lim):
    n = len(call.opts)
    lim = lim - 1 if call.small and n > 6 else lim
    for sub in subsets(n, lim):
        yield "sub", sub
    for k in range(call.npos + 1) if call.npos or not n else ():
        yield "pos", k


BASE = {}


def base(call, case):
    """Result with every option omitted (once per process and case)."""
    key = (case["entry"], case["lat"], call.name)
    if key not in BASE:
        BASE.clear()
        BASE[key] = execute(call, [], {k: cp(v) for k, v in call.req})
    return BASE[key]


def one(R, call, job, case):
    key = call.name
    req = {k: cp(v) for k, v in call.req}
    kind, what = job
    R.state((case["entry"], case["lat"], key, job))
    if kind == "sub":
        b = base(call, case)
        kw = {call.opts[i][0]: cp(call.opts[i][1]) for i in what}
        got = execute(call, [], dict(req, **kw))
        R.step(1)
        R.trace()
        given = [call.opts[i][0] for i in what]
        R.check(got[0] == b[0], key + ": defaults",
                "%s with %s given explicitly: %s, omitted: %s" %
                (case["lat"], given, got[0], b[0]))
        R.check(got[1] == b[1], key + ": defaults (printing)",
                "%s with %s given explicitly" % (case["lat"], given))
        R.check(same(got[2], b[2]), key + ": defaults",
                "%s: the result differs when the documented default of %s is "
                "given explicitly" % (case["lat"], given))
        R.outcome((key, b[0]))
        return
    # positional prefix, non-default values
    args = [cp(v) for _, v in call.req] + [cp(o[2])
                                           for o in call.opts[:what]]
    kw = dict(req, **{o[0]: cp(o[2]) for o in call.opts[:what]})
    a, b = execute(call, args, {}), execute(call, [], kw)
    R.step(2)
    R.trace()
    R.check(a[:2] == b[:2] and same(a[2], b[2]), key + ": order",
            "%s: the first %d options given by position or by name: %s / %s" %
            (case["lat"], what, a[:2], b[:2]))
    if what:
        R.outcome((key, what, a[0],
                   same(b[2], base(call, case)[2])))
