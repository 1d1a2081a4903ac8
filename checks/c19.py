"""C19: every plot draws exactly the data held by the solver objects."""
import copy
import itertools
import numpy as np
import scipy.constants as sc
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.collections import PathCollection, PolyCollection, LineCollection
from matplotlib.contour import ContourSet
from vk import structs
from vk.stacks import S

PROPERTY = "C19"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "what is drawn is read back from the matplotlib artists (lines, scatter "
    "collections, images, filled areas, contours) and the first figures "
    "of every kind are rendered with the Agg backend; matplotlib itself is trusted",
    "the numbers held by the solvers are decided by the other properties; here "
    "they are taken from a second, never plotted, solver object",
    "an image spans from the first to the last grid coordinate of its axes "
    "(behaviour of the library)",
    "quality-factor colours end at the largest quality factor below Q_clip",
]
BOUNDS = {
    "quick": "bands: 4 solver kinds x 3 structures x 6 wavevector lists x all "
             "combinations of Q, cone, show_symmetry, eV, k_units, axes given, "
             "3 clips; polariton bands; fields: 4 solvers x 3 quantities x 7 "
             "component lists x 3 parts x slices x periodic/full x 2 grids x "
             "contours; permittivity maps on every plane, layer and figure "
             "layout; shapes, potentials, wavefunctions; rejected requests",
    "thorough": "all lattices and stacks, 2 more grids and wavevector lists",
}
EV = sc.h * sc.c / sc.e
KL = {
    "path": np.array([(0., 0.), (1.2, 0.), (2.4, 0.), (2.4, 1.), (1., .4)]).T,
    "line": np.array([(.5, 0.), (-.7, 0.), (2.9, 0.)]).T,
    "one": np.array([(.6, .3)]).T,
    "same": np.array([(.6, .3), (.6, .3)]).T,
    "rep": np.array([(.2, 0.), (.2, 0.), (1.2, 0.), (.2, 0.)]).T,
    "edge": np.array([(3.1, 0.), (3., 0.)]).T,
    "dense": np.array([(x, .1) for x in np.linspace(-2, 3, 9)]).T,
    "gamma": np.array([(0., 0.)]).T,
}
GX = [None, "odd", "even", "both"]


def cases(tier):
    th = tier == "thorough"
    out = []
    lats = ["square", "oblique"] + (["hexagonal", "rect", "skew"] if th else [])
    sts = ["hole", "two", "rod"] + (["clad", "three", "thick"] if th else [])
    kls = ["path", "line", "one", "same", "rep", "edge"] + (
        ["dense", "gamma"] if th else [])
    for lat, st in itertools.product(lats, sts):
        for kl in kls:
            for sy in GX if st in ("hole", "rod", "thick") else [None]:
                if sy is not None and kl in ("one", "same", "path", "dense"):
                    if sy != "both":
                        continue
                    if lat != "square":
                        continue
                out.append(dict(kind="bands", lat=lat, st=st, kl=kl, sy=sy))
    if not th:
        # light line of the upper cladding / of patterned claddings
        for st, kl in itertools.product(("three", "clad"), ("path", "rep")):
            out.append(dict(kind="bands", lat="oblique", st=st, kl=kl, sy=None))
            out.append(dict(kind="pol", lat="oblique", st=st, kl=kl))
    for lat, kl, pol in itertools.product(lats, kls, ("te", "tm")):
        out.append(dict(kind="pwebands", lat=lat, kl=kl, pol=pol))
    for lat, st, kl in itertools.product(lats, ["hole", "two"], kls):
        out.append(dict(kind="pol", lat=lat, st=st, kl=kl))
    for lat, st in itertools.product(lats, sts):
        for fd in "hed":
            if th or lat == "square" or st == "two":
                out.append(dict(kind="field", lat=lat, st=st, fd=fd, th=th))
        out.append(dict(kind="maps", lat=lat, st=st, th=th))
    for lat, pol in itertools.product(lats, ("te", "tm")):
        out.append(dict(kind="pwefield", lat=lat, pol=pol, th=th))
    for lat, v in itertools.product(lats, (.02, -.03)):
        out.append(dict(kind="exc", lat=lat, v=v))
    for lat in lats:
        out.append(dict(kind="shapes", lat=lat))
    out.append(dict(kind="x"))
    out.append(dict(kind="reject"))
    return out


# ----------------------------------------------------------------- helpers
def snap(o, depth=0, seen=None):
    """All numbers a user can reach from a solver object, bit for bit."""
    seen = {} if seen is None else seen  # keeps the objects alive
    if o is None or isinstance(o, (int, float, complex, str, bool)):
        return o
    if isinstance(o, np.ndarray):
        return (o.shape, o.dtype.str,
                o.tobytes() if o.dtype != object else repr(o))
    if id(o) in seen or depth > 7:
        return "."
    seen[id(o)] = o
    if isinstance(o, dict):
        return tuple((repr(k), snap(v, depth + 1, seen)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return tuple(snap(v, depth + 1, seen) for v in o)
    if type(o).__module__.split(".")[0] == "legume":
        out = []
        for k in dir(o):
            if k.startswith("_"):
                continue
            try:
                v = getattr(o, k)
            except Exception as e:
                out.append((k, type(e).__name__))
                continue
            if not callable(v):
                out.append((k, snap(v, depth + 1, seen)))
        return tuple(out)
    return repr(type(o))


def arr(m):
    return np.ma.filled(np.ma.asarray(m), np.nan)


def same(a, b, tol=0):
    a, b = np.asarray(arr(a)), np.asarray(arr(b))
    if a.shape != b.shape:
        return False
    if tol == 0:
        return np.array_equal(a, b, equal_nan=True)
    s = np.nanmax(np.abs(b)) if b.size else 1
    return np.allclose(a, b, rtol=tol, atol=tol * max(s, 1e-300),
                       equal_nan=True)


RENDERED = {}


class Fig:
    """Plot with f, render, return the figure and close everything."""
    def __init__(self, R, key, desc, objs):
        self.R, self.key, self.desc, self.objs = R, key, desc, objs

    def __call__(self, f):
        R = self.R
        before = [snap(o) for o in self.objs]
        n0 = len(plt.get_fignums())
        try:
            ret = f()
        except Exception as e:
            R.fail(self.key + ":exception:" + type(e).__name__,
                   "%s: plotting raised %r" % (self.desc, e))
            plt.close("all")
            return None, None
        R.step()
        fig = plt.gcf()
        n = RENDERED[self.key] = RENDERED.get(self.key, 0) + 1
        try:
            if n < 4 or n % 50 == 0:
                fig.canvas.draw()
        except Exception as e:
            R.fail(self.key + ":render:" + type(e).__name__,
                   "%s: rendering raised %r" % (self.desc, e))
        R.check(before == [snap(o) for o in self.objs], self.key + ":state",
                self.desc + ": plotting changed the solver")
        return ret, fig


def images(ax):
    return list(ax.images)


def the_image(R, key, desc, ax, Z, extent, clim=None, tol=1e-12):
    ims = images(ax)
    if not R.check(len(ims) == 1, key + ":nimg", "%s: %d images" %
                   (desc, len(ims))):
        return
    im = ims[0]
    A = np.asarray(im.get_array())
    R.check(same(A, Z, tol), key + ":img",
            "%s: image differs from the data (shape %s / %s%s)" %
            (desc, A.shape, np.shape(Z), "" if A.shape != np.shape(Z) else
             ", max %.3g" % np.max(np.abs(A - Z))))
    R.check(im.origin == "lower", key + ":origin", desc + ": image flipped")
    R.check(same(im.get_extent(), extent, 1e-12), key + ":extent",
            "%s: extent %s, expected %s" % (desc, im.get_extent(), extent))
    if clim is not None and clim[0] < clim[1]:
        R.check(same(im.get_clim(), clim, 1e-9), key + ":clim",
                "%s: colour limits %s, expected %s" %
                (desc, im.get_clim(), clim))
    R.trace()
    R.outcome((key, np.round(A[::2, ::2], 3).tobytes()[:200]))


def ref_x(k, ku):
    if not ku:
        return np.arange(k.shape[1]).astype(float)
    d = [0.]
    for i in range(1, k.shape[1]):
        d.append(d[-1] + np.hypot(*(k[:, i] - k[:, i - 1])))
    return np.array(d) / (d[-1] if d[-1] > 0 else 1)


def ref_eps_max(lat, st):
    s = S[st]
    area = lat.ec_area
    return max(structs.eps_avg(tuple(s["l"]), area),
               structs.eps_avg(tuple(s["u"]), area))


def check_cone(R, key, desc, ax, x0, ll, show):
    pcs = [c for c in ax.collections if isinstance(c, PolyCollection)]
    if not show:
        R.check(not pcs, key + ":nocone", desc + ": unexpected filled area")
        return
    if not R.check(len(pcs) == 1, key + ":ncone",
                   "%s: %d filled areas" % (desc, len(pcs))):
        return
    v = np.vstack([p.vertices for p in pcs[0].get_paths()])
    tol = 1e-9 * max(1, ll.max())
    for x, l in zip(x0, ll):
        at = v[np.abs(v[:, 0] - x) < 1e-12 + 1e-9 * abs(x), 1]
        R.check(at.size and np.min(np.abs(at - l)) < tol, key + ":cone",
                "%s: light cone at x=%.3g starts at %s, light line %.9g" %
                (desc, x, np.unique(np.round(at, 6)), l))
    allowed = np.concatenate((ll, [v[:, 1].max()]))
    R.check(np.all(np.min(np.abs(v[:, 1][:, None] - allowed), axis=1) < tol),
            key + ":cone2", desc + ": filled area has other boundaries")
    R.check(np.all(v[:, 1].max() >= ax.get_ylim()[1] - 1e-12), key + ":top",
            desc + ": filled area does not reach the top of the plot")


def check_points(R, key, desc, ax, x, y, c=None, norm=None, cmap=None,
                 edges=None):
    """All markers of the axes: (x, y[, colour]) rows x modes."""
    n = y.shape[1]
    X = np.repeat(x[:, None], n, 1)
    scs = [q for q in ax.collections if isinstance(q, PathCollection)]
    lines = list(ax.lines)
    if c is None:
        if not R.check(not scs and lines, key + ":artists",
                       desc + ": expected plain markers"):
            return
        px = np.concatenate([np.asarray(l.get_xdata(), float) for l in lines])
        py = np.concatenate([np.asarray(l.get_ydata(), float) for l in lines])
        pc = np.zeros_like(px)
        cc = np.zeros(X.size)
        R.check(all(l.get_marker() == "o" and l.get_linestyle() == "None"
                    for l in lines), key + ":style",
                desc + ": points are not separate markers")
    else:
        if not R.check(len(scs) == 1 and not lines, key + ":artists",
                       desc + ": expected coloured markers"):
            return
        off = np.ma.getdata(scs[0].get_offsets())
        px, py = off[:, 0], off[:, 1]
        pc = arr(scs[0].get_array()).astype(float).ravel()
        cc = np.asarray(c, float).ravel()
        if not R.check(pc.size == cc.size == px.size == X.size,
                       key + ":ncol", desc + ": one colour per point"):
            return
    if not R.check(px.size == X.size, key + ":npts", "%s: %d points, %d data" %
                   (desc, px.size, X.size)):
        return
    # compare as sets of rows (the drawing order is irrelevant)
    got = np.column_stack((px, py, pc))
    exp = np.column_stack((X.ravel(), y.ravel(), cc))
    ecol = None
    if edges is not None:
        ec = np.asarray(scs[0].get_edgecolors())
        if not R.check(len(ec) == len(got), key + ":nedge",
                       desc + ": one edge colour per point"):
            return
        got = np.column_stack((got, ec))
        exp = np.column_stack((exp, edges.reshape(-1, 4)))
    sc_ = np.maximum(np.nanmax(np.abs(np.where(np.isfinite(exp), exp, 0)),
                               axis=0), 1e-300)
    sc_[2] = 1.
    used = np.zeros(len(exp), bool)
    for row in got:
        d = np.abs(exp - row) / sc_
        d[:, 2] = np.abs(exp[:, 2] - row[2]) / np.maximum(
            np.abs(exp[:, 2]), 1e-300)
        d[exp == row] = 0
        bad = np.where(used, np.inf, d.max(axis=1))
        i = int(np.argmin(bad))
        if not R.check(bad[i] < 1e-9, key + ":point",
                       "%s: drawn point %s is not solver data" % (desc, row)):
            return
        used[i] = True
    if norm is not None:
        vmin, vmax, log = norm
        nm = scs[0].norm
        R.check(isinstance(nm, matplotlib.colors.LogNorm) == log,
                key + ":norm", desc + ": colour scale type")
        if vmin is not None:
            R.check(same(nm.vmin, vmin, 1e-9), key + ":vmin",
                    "%s: colour scale from %s" % (desc, nm.vmin))
        if vmax is not None:
            R.check(same(nm.vmax, vmax, 1e-9), key + ":vmax",
                    "%s: colour scale to %s, expected %s" %
                    (desc, nm.vmax, vmax))
    if cmap is not None:
        R.check(scs[0].get_cmap().name == cmap, key + ":cmap",
                desc + ": colormap " + scs[0].get_cmap().name)
    R.trace()
    R.outcome((key, np.round(y, 6).tobytes()))


# ------------------------------------------------------------------- bands
def gme_solver(l, lat, st, kl, sy=None, gmax=1.01, numeig=4, inds=(0, 1),
               im=True):
    phc = structs.build_phc(l, lat, S[st])
    k = KL[kl]
    s = l.GuidedModeExp(phc, gmax=gmax)
    kw = dict(gmode_inds=list(inds), numeig=numeig, verbose=False,
              compute_im=im)
    if sy:
        ang = np.where(np.hypot(*k) > 0, np.arctan2(k[1], k[0]), 0.)
        kw.update(kz_symmetry=sy, angles=ang, symm_thr=1e-6)
    s.run(kpoints=k.copy(), **kw)
    return s


def run_bands(c, R):
    import legume as l
    lat = structs.lattice(l, c["lat"])
    args = (l, lat, c["st"], c["kl"], c["sy"])
    try:
        ref = gme_solver(*args)
    except ValueError as e:
        if c["sy"] and ("symmetry" in str(e).lower() or "numeig" in str(e)):
            R.count("not separable")
            return
        raise
    k = KL[c["kl"]]
    fr, fi = np.array(ref.freqs), np.array(ref.freqs_im)
    kmod = np.hypot(*k) / 2 / np.pi
    ll0 = kmod / np.sqrt(ref_eps_max(lat, c["st"]))
    q = fr / 2 / (fi + 1e-16)
    symm = None if c["sy"] is None else np.asarray(ref.kz_symms, float)
    late = gme_solver(*args, im=False)
    s = gme_solver(*args)
    for Q, cone, sh, ev, ku, given in itertools.product((0, 1), repeat=6):
        if c["sy"] is None and sh:
            continue
        if given and (ev + ku != 1):
            continue
        if c["lat"] != "square" and c["kl"] != "path" and ev + cone == 1:
            continue
        for clip in (1e10, 40., 1e4) if Q and not given else (1e10, ):
            kw = dict(Q=bool(Q), cone=bool(cone), show_symmetry=bool(sh),
                      eV=bool(ev), k_units=bool(ku), Q_clip=clip)
            if ev:
                kw["a"] = 4e-7
            conv = EV / 4e-7 if ev else 1.
            key = "bands:Q%d:sy%s" % (Q, c["sy"])
            desc = "bands %s %s" % (c, kw)
            R.state((c, sorted(kw.items()), given))
            ax0 = None
            if given:
                f0, (axo, ax0) = plt.subplots(1, 2)
            # losses not yet computed: only Q may compute them
            tgt = s
            if Q and cone and not ku and not given and clip == 1e10 and not ev:
                tgt = copy.deepcopy(late)
                ax = l.viz.bands(tgt, **kw)
                plt.close("all")
                R.check(same(tgt.freqs, fr) and same(np.array(tgt.freqs_im),
                                                     fi, 1e-9),
                        "bands:late", desc + ": losses computed by the plot "
                        "differ from those of run()")
            ax, fig = Fig(R, key, desc, [tgt])(
                lambda: l.viz.bands(tgt, ax=ax0, **kw))
            if ax is None:
                continue
            if given:
                R.check(ax is ax0 and not axo.lines and not axo.collections and
                        len(plt.get_fignums()) == 1, key + ":ax",
                        desc + ": drawn elsewhere")
            both = c["sy"] == "both" and sh
            norm = edges = col = cmap = None
            if Q:
                col = q
                bel = q[(q > 0) & (q < clip)]
                norm = (None, bel.max() if bel.size else clip, True)
                if np.unique(bel).size == 1:
                    # matplotlib widens an empty colour range
                    norm = (None, None, True)
                cmap = "viridis"
                if both:
                    edges = plt.get_cmap("bwr")((symm.ravel() + 1) / 2)
            elif both:
                col, norm, cmap = symm, (-1, 1, False), "bwr"
            x0 = ref_x(k, ku)
            check_points(R, key, desc, ax, x0, conv * fr, col, norm, cmap,
                         edges)
            check_cone(R, key, desc, ax, x0, conv * ll0, cone)
            R.check(same(ax.get_ylim(), (0, conv * fr.max()), 1e-9),
                    key + ":ylim", desc + ": frequency range")
            if x0[-1] > 0:
                R.check(same(ax.get_xlim(), (0, x0.max()), 1e-9),
                        key + ":xlim", desc + ": wavevector range")
            R.check(("eV" in ax.get_ylabel()) == bool(ev), key + ":label",
                    desc + ": axis label " + ax.get_ylabel())
            plt.close("all")


def pwe_solver(l, lat, kl, pol, ng=1.01, ne=4):
    lay = l.ShapesLayer(lat, eps_b=2.)
    lay.add_shape([structs.make_shape(l, "tri", 9.),
                   structs.make_shape(l, "lsh", 5.)])
    p = l.PlaneWaveExp(lay, gmax=ng)
    p.run(kpoints=KL[kl].copy(), pol=pol, numeig=ne)
    return p


def run_pwebands(c, R):
    import legume as l
    lat = structs.lattice(l, c["lat"])
    ref = pwe_solver(l, lat, c["kl"], c["pol"])
    s = pwe_solver(l, lat, c["kl"], c["pol"])
    fr, k = np.array(ref.freqs), KL[c["kl"]]
    for cone, sh, ev, ku, given in itertools.product((0, 1), repeat=5):
        kw = dict(cone=bool(cone), show_symmetry=bool(sh), eV=bool(ev),
                  k_units=bool(ku))
        conv = 1.
        if ev:
            kw["a"] = 1e-6
            conv = EV / 1e-6
        desc = "bands %s %s" % (c, kw)
        R.state((c, sorted(kw.items()), given))
        ax0 = plt.subplots()[1] if given else None
        ax, fig = Fig(R, "pwe", desc, [s])(
            lambda: l.viz.bands(s, ax=ax0, **kw))
        if ax is None:
            continue
        x0 = ref_x(k, ku)
        check_points(R, "pwe", desc, ax, x0, conv * fr)
        R.check(same(ax.get_ylim(), (0, conv * fr.max()), 1e-9), "pwe:ylim",
                desc + ": frequency range")
        if given:
            R.check(ax is ax0 and len(plt.get_fignums()) == 1, "pwe:ax",
                    desc + ": drawn elsewhere")
        plt.close("all")
    # default arguments
    ax, fig = Fig(R, "pwe", "bands(pwe)", [s])(lambda: l.viz.bands(s))
    if ax is not None:
        check_points(R, "pwe", "default", ax, ref_x(k, 0), fr)
    plt.close("all")


# --------------------------------------------------------------- polaritons
def pol_solver(l, lat, st, kl):
    from checks.c16 import W, A0
    phc = structs.build_phc(l, lat, S[st])
    for z, n in ((.4, "b"), (.7, "a")):
        phc.add_qw(z=z * sum(q[0] for q in S[st]["layers"]), a=A0, **W[n])
    p = l.HopfieldPol(phc, gmax=1.01)
    p.run(gme_options=dict(gmode_inds=[0, 1], numeig=3, verbose=False),
          exc_options=dict(numeig_ex=2, verbose_ex=False),
          kpoints=KL[kl].copy(), verbose=False)
    return p, A0


def run_pol(c, R):
    import legume as l
    lat = structs.lattice(l, c["lat"])
    ref, a = pol_solver(l, lat, c["st"], c["kl"])
    s, _ = pol_solver(l, lat, c["st"], c["kl"])
    k = KL[c["kl"]]
    en, ei = np.array(ref.eners), np.array(ref.eners_im)
    fx = np.array(ref.fractions_ex)
    q = en / 2 / (ei + 1e-16)
    ll = EV / a * np.hypot(*k) / 2 / np.pi / np.sqrt(ref_eps_max(lat, c["st"]))
    for Q, fc, cone, ku, given in itertools.product((0, 1), repeat=5):
        for rng in ((), (30., 500.)):
            if rng and (not Q or given):
                continue
            kw = dict(Q=bool(Q), fraction=bool(fc), cone=bool(cone),
                      k_units=bool(ku))
            if rng:
                kw["Q_min"], kw["Q_max"] = rng
            R.state((c, sorted(kw.items()), given))
            desc = "pol_bands %s %s" % (c, kw)
            key = "pol:Q%d:f%d" % (Q, fc)
            ax0 = plt.subplots()[1] if given else None
            ax, fig = Fig(R, key, desc, [s])(
                lambda: l.viz.pol_bands(s, ax=ax0, **kw))
            if ax is None:
                continue
            if given:
                R.check(ax is ax0 and len(plt.get_fignums()) == 1, key + ":ax",
                        desc + ": drawn elsewhere")
            col = norm = cmap = None
            if fc:
                col, norm, cmap = fx, (0, 1, False), "coolwarm"
            elif Q:
                col, cmap = q, "viridis"
                norm = (rng or (1e2, 1e4)) + (True, )
            x0 = ref_x(k, ku)
            check_points(R, key, desc, ax, x0, en, col, norm, cmap)
            check_cone(R, key, desc, ax, x0, ll, cone)
            R.check(same(ax.get_ylim(), (0, en.max()), 1e-9), key + ":ylim",
                    desc + ": energy range")
            R.check("eV" in ax.get_ylabel(), key + ":label", desc)
            plt.close("all")
    run_structure(c, R, l, s, ref.gme.phc, [z.z for z in s.exc_list])


# ------------------------------------------------------------------- fields
def contour_paths(gx, gy, e, lev):
    f = plt.figure()
    cs = f.add_subplot().contour(gx, gy, e, lev)
    v = [np.round(p.vertices, 9) for p in cs.get_paths()]
    lv = np.array(cs.levels)
    plt.close(f)
    return lv, v


def check_contour(R, key, desc, ax, gx, gy, e, lev, show):
    cs = [q for q in ax.collections if isinstance(q, ContourSet)]
    if not show:
        R.check(not cs, key + ":nocontour", desc + ": unexpected contour")
        return
    if not R.check(len(cs) == 1, key + ":ncontour", "%s: %d contours" %
                   (desc, len(cs))):
        return
    lv, v = contour_paths(gx, gy, e, 0 if lev is None else lev)
    got = [np.round(p.vertices, 9) for p in cs[0].get_paths()]
    ok = same(lv, cs[0].levels, 1e-9) and len(v) == len(got) and all(
        a.shape == b.shape and np.allclose(a, b, atol=1e-6)
        for a, b in zip(v, got))
    R.check(ok, key + ":contour", desc + ": permittivity outline")


def check_field_fig(R, key, desc, fig, comps, fd, Zs, g1, g2, val, cbar, epsr,
                    lev, title):
    axs = [a for a in fig.axes if a.images and a.get_label() != "<colorbar>"]
    if not R.check(len(axs) == len(comps), key + ":naxes",
                   "%s: %d panels for %d components" %
                   (desc, len(axs), len(comps))):
        return
    ncb = len([a for a in fig.axes if a.get_label() == "<colorbar>"])
    R.check(ncb == (len(comps) if cbar else 0), key + ":cbar",
            "%s: %d colour bars" % (desc, ncb))
    for ax, cp, F in zip(axs, comps, Zs):
        Z = dict(re=np.real, im=np.imag, abs=np.abs)[val](F)
        m = np.abs(Z).max()
        tol = 1e-12 if np.abs(F).max() > 1e-10 else 1e-3
        the_image(R, key, "%s [%s]" % (desc, cp), ax, Z,
                  (g1[0], g1[-1], g2[0], g2[-1]),
                  (-m if val != "abs" else 0, m) if m > 1e-10 else None, tol)
        check_contour(R, key, desc, ax, g1, g2, epsr, lev, epsr is not None)
        t = ax.get_title()
        R.check("(%s_{%s" % (fd.upper(), cp) in t and all(x in t
                                                          for x in title),
                key + ":title", "%s: title %r lacks %s" % (desc, t, title))
        R.check(t.lower().startswith(val), key + ":tval", desc + ": title " + t)


def pointeps(phc, X, Y, Z):
    """Permittivity point by point (two points per call)."""
    out = np.zeros(X.shape)
    for i in np.ndindex(*X.shape):
        out[i] = np.ravel(phc.get_eps(
            tuple(np.array([[q[i]]]) for q in (X, Y, Z))))[0]
    return out


def run_field(c, R):
    import legume as l
    lat = structs.lattice(l, c["lat"])
    ref = gme_solver(l, lat, c["st"], "path", numeig=3)
    s = gme_solver(l, lat, c["st"], "path", numeig=3)
    noim = gme_solver(l, lat, c["st"], "path", numeig=3, im=False)
    k = KL["path"]
    fd = c["fd"]
    fr, fi = np.array(ref.freqs), np.array(ref.freqs_im)
    xb, yb = (q[-1] for q in lat.xy_grid(Nx=2, Ny=2))
    zmid = ref.phc.layers[0].z_mid
    slices = [dict(z=zmid), dict(z=-.3), dict(z=0.), dict(x=.07), dict(x=0.),
              dict(y=-.11), dict(y=0)]
    grids = [(7, 5), (4, 6)] + ([(5, 5), (2, 9)] if c["th"] else [])
    cache = {}
    for sl in slices:
        for (n1, n2), (kind, mind) in zip(
                grids * (2 if c["th"] else 1),
            ((3, 1), (1, -1), (4, 0), (0, 2), (3, 0), (2, 1), (0, 0), (1, 1)
             )):
            ax_, v = list(sl.items())[0]
            if ax_ == "z":
                F, g1, g2 = ref.get_field_xy(fd, kind, mind, v,
                                             component="xyz", Nx=n1, Ny=n2)
            elif ax_ == "x":
                F, g1, g2 = ref.get_field_yz(fd, kind, mind, v,
                                             component="xyz", Ny=n1, Nz=n2)
            else:
                F, g1, g2 = ref.get_field_xz(fd, kind, mind, v,
                                             component="xyz", Nx=n1, Nz=n2)
            A, B = np.meshgrid(g1, g2)
            V = np.full(A.shape, float(v))
            X, Y, Z = dict(z=(A, B, V), x=(V, A, B), y=(A, V, B))[ax_]
            epsr = pointeps(ref.phc, X, Y, Z)
            ph = np.exp(1j * (k[0, kind] * X + k[1, kind] * Y))
            for comp, per, val, (ep, lev), cb in itertools.product(
                    ("xyz", "z", "yx", "Zy", "xx"), (True, False),
                    ("re", "im", "abs", "Re"),
                    ((True, None), (False, None), (True, [2.5, 7.])),
                    (True, False)):
                # one option away from the default at a time, plus all
                # pairs of the phase option
                dev = (comp != "xyz") + (val != "re") + (
                    (ep, lev) != (True, None)) + (not cb)
                if dev > 1:
                    continue
                if dev and (n1, n2) == (4, 6) and comp == "xyz":
                    continue
                kw = dict(component=comp, periodic=per, val=val, N1=n1, N2=n2,
                          cbar=cb, eps=ep, eps_levels=lev, **sl)
                if np.ptp(epsr) == 0 and ep:
                    kw["eps"] = ep = False
                R.state((c, sorted(map(repr, kw.items())), kind, mind))
                key = "field:%s:%s" % (ax_, "per" if per else "full")
                desc = "field %s kind=%d mind=%d %s" % (c, kind, mind, kw)
                nm = mind % 3
                title = ["$f = %.2f$" % fr[kind, mind], "k_{%d}" % kind,
                         "%d})" % mind, "= %1.2f" % v]
                if abs(fi[kind, mind]) > 1e-20:
                    title.append("%.2E" % (fr[kind, mind] / 2 /
                                           fi[kind, mind]))
                ret, fig = Fig(R, key, desc, [s])(
                    lambda: l.viz.field(s, fd.upper() if cb else fd, kind,
                                        mind, **kw))
                if ret is None:
                    continue
                Zs = [F[q] * (1 if per else ph) for q in comp.lower()]
                check_field_fig(R, key, desc, ret, comp.lower(), fd, Zs, g1,
                                g2, val.lower(), cb, epsr if ep else None, lev,
                                title)
                plt.close("all")
    # losses not computed: the title must not invent them
    ret, fig = Fig(R, "field:noim", "no losses", [noim])(
        lambda: l.viz.field(noim, fd, 3, 1, z=zmid, component="z", N1=5, N2=5))
    if ret is not None:
        R.check("Q" not in ret.axes[0].get_title(), "field:noim",
                "quality factor in the title without losses")
    plt.close("all")


def run_pwefield(c, R):
    import legume as l
    lat = structs.lattice(l, c["lat"])
    ref = pwe_solver(l, lat, "path", c["pol"])
    s = pwe_solver(l, lat, "path", c["pol"])
    k, fr = KL["path"], np.array(ref.freqs)
    own = dict(te=[("h", "z"), ("d", "xy"), ("e", "xy"), ("d", "y")],
               tm=[("h", "xy"), ("d", "z"), ("e", "z"), ("h", "x")])[c["pol"]]
    for (fd, comp), sl, (n1, n2), (kind, mind), per, val, (ep, lev) in \
            itertools.product(own, ({}, dict(z=0.), dict(z=.4)),
                              ((7, 5), (3, 6)), ((3, 1), (4, 0)),
                              (True, False), ("re", "im", "abs"),
                              ((True, None), (False, None), (True, [3.]))):
        if val != "re" and (not ep or lev):
            continue
        if not c["th"] and ((n1 == 3) == (kind == 3) or
                            (sl.get("z") == 0. and val != "re")):
            continue
        kw = dict(component=comp, periodic=per, val=val, N1=n1, N2=n2, eps=ep,
                  eps_levels=lev, **sl)
        F, g1, g2 = ref.get_field_xy(fd, kind, mind, component=comp, Nx=n1,
                                     Ny=n2)
        X, Y = np.meshgrid(g1, g2)
        epsr = np.array([[float(np.ravel(ref.layer.get_eps(
            (np.array([[x]]), np.array([[y]]))))[0]) for x in g1] for y in g2])
        if np.ptp(epsr) == 0:
            kw["eps"] = ep = False
        ph = np.exp(1j * (k[0, kind] * X + k[1, kind] * Y))
        key = "pwefield:" + ("per" if per else "full")
        desc = "field %s %s kind=%d mind=%d %s" % (c, fd, kind, mind, kw)
        R.state((c, fd, kind, mind, sorted(map(repr, kw.items()))))
        ret, fig = Fig(R, key, desc, [s])(
            lambda: l.viz.field(s, fd, kind, mind, **kw))
        if ret is None:
            continue
        Zs = [F[q] * (1 if per else ph) for q in comp]
        check_field_fig(R, key, desc, ret, comp, fd, Zs, g1, g2, val, True,
                        epsr if ep else None, lev,
                        ["$f = %.2f$" % fr[kind, mind], "k_{%d}" % kind])
        plt.close("all")
    run_epsft(c, R, l, s, ref, [0.])
    run_recip(R, l, s, ref)


# --------------------------------------------------------------------- maps
def panels(fig):
    return [a for a in fig.axes if a.images and a.get_label() != "<colorbar>"]


def run_maps(c, R):
    import legume as l
    lat = structs.lattice(l, c["lat"])
    st = c["st"]
    ref = structs.build_phc(l, lat, S[st])
    phc = structs.build_phc(l, lat, S[st])
    stack = S[st]
    height = sum(q[0] for q in stack["layers"])
    zs = [-.3, 0., height / 2, height + .2]
    gx, gy = lat.xy_grid(Nx=7, Ny=5)
    gz = np.linspace(-1, height + 1, 6)
    for plane, N, coords in (("xy", dict(Nx=7, Ny=5), zs),
                             ("xz", dict(Nx=7, Nz=6), (0, .13)),
                             ("yz", dict(Ny=5, Nz=6), (0, -.2))):
        fn = getattr(l.viz, "eps_" + plane)
        third = dict(xy="z", xz="y", yz="x")[plane]
        g1, g2 = dict(xy=(gx, gy), xz=(gx, gz), yz=(gy, gz))[plane]
        A, B = np.meshgrid(g1, g2)
        for v, cl, cb, how in itertools.product(
                coords, (None, [1.5, 9.]), (False, True),
                ("none", "ax", "cax", "noplot")):
            V = np.full(A.shape, float(v))
            X, Y, Z = dict(xy=(A, B, V), xz=(A, V, B), yz=(V, A, B))[plane]
            E = pointeps(ref, X, Y, Z)
            kw = dict(clim=cl, cbar=cb, cmap="viridis", **N)
            kw[third] = v
            if how in ("ax", "cax"):
                f0, (a0, a1) = plt.subplots(1, 2)
                kw["ax"] = a0
                if how == "cax":
                    if not cb:
                        plt.close("all")
                        continue
                    kw["cax"] = a1
            if how == "noplot":
                kw["plot"] = False
            desc = "eps_%s %s %s" % (plane, c, {
                a: b for a, b in kw.items() if a not in ("ax", "cax")})
            R.state(desc + how)
            key = "eps_" + plane
            if how == "noplot":
                ret = fn(phc, **kw)
                R.check(not plt.get_fignums(), key + ":noplot",
                        desc + ": a figure was made")
                R.check(same(ret, E), key + ":ret", desc + ": returned array")
                R.trace()
                continue
            ret, fig = Fig(R, key, desc, [phc])(lambda: fn(phc, **kw))
            if ret is None:
                continue
            R.check(same(ret, E), key + ":ret", desc + ": returned array")
            p = panels(fig)
            if R.check(len(p) == 1, key + ":panels", desc + ": panels"):
                the_image(R, key, desc, p[0], E,
                          (g1[0], g1[-1], g2[0], g2[-1]),
                          cl or (E.min(), E.max()))
                R.check(p[0].images[0].get_cmap().name == "viridis",
                        key + ":cmap", desc)
                if how != "none":
                    R.check(p[0] is a0 and len(plt.get_fignums()) == 1,
                            key + ":ax", desc + ": drawn elsewhere")
                R.check((p[0].images[0].colorbar is not None) == cb,
                        key + ":cbar", desc + ": colour bar")
                if how == "cax":
                    R.check(p[0].images[0].colorbar.ax is a1, key + ":cax",
                            desc + ": colour bar drawn elsewhere")
            plt.close("all")
    # one layer
    for il, (lay, rl) in enumerate(zip(
            [phc.claddings[0]] + phc.layers + [phc.claddings[1]],
            [ref.claddings[0]] + ref.layers + [ref.claddings[1]])):
        for cl, cb in itertools.product((None, [0, 3]), (False, True)):
            A, B = np.meshgrid(gx, gy)
            E = np.array([[float(np.ravel(rl.get_eps(
                (np.array([[x]]), np.array([[y]]))))[0]) for x in gx]
                          for y in gy])
            desc = "eps layer %d %s" % (il, c)
            ret, fig = Fig(R, "eps", desc, [phc])(
                lambda: l.viz.eps(lay, Nx=7, Ny=5, clim=cl, cbar=cb))
            p = panels(fig)
            if R.check(len(p) == 1, "eps:panels", desc):
                the_image(R, "eps", desc, p[0], E,
                          (gx[0], gx[-1], gy[0], gy[-1]),
                          cl or (E.min(), E.max()))
            plt.close("all")
    run_structure(c, R, l, phc, ref, [])
    s = l.GuidedModeExp(phc, gmax=1.01)
    r = l.GuidedModeExp(ref, gmax=1.01)
    run_structure(c, R, l, s, ref, None)
    run_epsft(c, R, l, s, r, None)
    run_recip(R, l, s, r)


def layouts(l):
    yield dict()
    yield dict(figsize=3)
    yield dict(figsize=2.5)
    yield dict(figsize=(3, 9))
    f = plt.figure()
    yield dict(gridspec=f.add_gridspec(1, 2)[0, 1], fig=f)


def run_structure(c, R, l, obj, ref, qw):
    lat = ref.lattice
    gx, gy = lat.xy_grid(Nx=6, Ny=5)
    gz = ref.z_grid(Nz=7)
    h = sum(q[0] for q in S[c["st"]]["layers"])
    R.check(same(gz, np.linspace(-1, h + 1, 7), 1e-12), "structure:zgrid",
            "range of the vertical sections")
    sh = [e for e, _ in [S[c["st"]][q] for q in "lu"]]
    every = []
    for eb, lst in [tuple(S[c["st"]]["l"])] + [
            (q[1], q[2]) for q in S[c["st"]]["layers"]
    ] + [tuple(S[c["st"]]["u"])]:
        every += [eb] + [e for _, e in lst]
    ext = dict(xy=(gx[0], gx[-1], gy[0], gy[-1]),
               xz=(gx[0], gx[-1], gz[0], gz[-1]),
               yz=(gy[0], gy[-1], gz[0], gz[-1]))
    eps = {}
    A, B = np.meshgrid(gx, gz)
    eps["xz"] = pointeps(ref, A, 0 * A, B)
    A, B = np.meshgrid(gy, gz)
    eps["yz"] = pointeps(ref, 0 * A, A, B)
    A, B = np.meshgrid(gx, gy)
    low = -.5
    z = 0.
    mids = []
    for d, _, _ in S[c["st"]]["layers"]:
        mids.append(z + d / 2)
        z += d
    lays = [pointeps(ref, A, B, np.full(A.shape, q))
            for q in [low] + mids + [z + .5]]
    for xy, xz, yz, cl, cb in itertools.product((False, True), repeat=5):
        if not (xy or xz or yz):
            continue
        for lay in layouts(l):
            if lay and "fig" not in lay and not (xz and xy and cb):
                plt.close("all")
                continue
            kw = dict(xy=xy, xz=xz, yz=yz, cladding=cl, cbar=cb, Nx=6, Ny=5,
                      Nz=7, **lay)
            desc = "structure %s %s" % (c, {q: w for q, w in kw.items()
                                            if q not in ("fig", "gridspec")})
            R.state(desc + str(sorted(lay)) + type(obj).__name__)
            key = "structure"
            ret, fig = Fig(R, key, desc, [obj])(
                lambda: l.viz.structure(obj, **kw))
            if fig is None:
                continue
            if "fig" in lay:
                R.check(fig is lay["fig"] and len(plt.get_fignums()) == 1,
                        key + ":fig", desc + ": drawn elsewhere")
            exp = []
            if xz:
                exp.append(("xz", eps["xz"], ext["xz"]))
            if yz:
                exp.append(("yz", eps["yz"], ext["yz"]))
            if xy:
                for i, e in enumerate(lays if cl else lays[1:-1]):
                    nm = "layer %d" % i
                    if cl and i == 0:
                        nm = "lower cladding"
                    if cl and i == len(lays) - 1:
                        nm = "upper cladding"
                    exp.append((nm, e, ext["xy"]))
            p = panels(fig)
            if R.check(len(p) == len(exp), key + ":panels",
                       "%s: %d panels, expected %d" % (desc, len(p),
                                                       len(exp))):
                for ax, (nm, e, x) in zip(p, exp):
                    the_image(R, key, desc + " " + nm, ax, e, x,
                              (min(every), max(every)))
                    R.check(nm in ax.get_title(), key + ":title",
                            "%s: title %r of %s" % (desc, ax.get_title(), nm))
                    R.check((ax.images[0].colorbar is not None) == cb,
                            key + ":cbar", desc)
                    hl = [q for q in ax.collections
                          if isinstance(q, LineCollection)]
                    if nm in ("xz", "yz") and qw is not None:
                        got = sorted(float(s[0][1]) for q in hl
                                     for s in q.get_segments())
                        R.check(same(got, sorted(qw), 1e-12), key + ":wells",
                                "%s: wells drawn at %s, placed at %s" %
                                (desc, got, sorted(qw)))
                        for q in hl:
                            for s in q.get_segments():
                                R.check(same(s[:, 0], x[:2], 1e-9) and
                                        s[0, 1] == s[1, 1], key + ":wellx",
                                        desc + ": extent of a well")
                    elif nm not in ("xz", "yz"):
                        R.check(not hl, key + ":wells2", desc)
            plt.close("all")


def run_epsft(c, R, l, s, ref, zl):
    gme = zl is None
    if gme:
        phc = ref.phc
        zin = [q.z_mid for q in phc.layers]
        h = sum(q[0] for q in S[c["st"]]["layers"])
        zcl = [-.5] + zin + [h + .5]
    for cl, cb in itertools.product((False, True), repeat=2):
        for lay in layouts(l):
            kw = dict(cladding=cl, cbar=cb, Nx=6, Ny=5, **lay)
            desc = "eps_ft %s cladding=%s cbar=%s %s" % (c, cl, cb,
                                                         sorted(lay))
            R.state(desc + type(s).__name__)
            ret, fig = Fig(R, "eps_ft", desc, [s])(
                lambda: l.viz.eps_ft(s, **kw))
            if fig is None:
                continue
            if "fig" in lay:
                R.check(fig is lay["fig"] and len(plt.get_fignums()) == 1,
                        "eps_ft:fig", desc + ": drawn elsewhere")
            zz = (zcl if cl else zin) if gme else zl
            data = []
            for z in zz:
                if gme:
                    e, gx, gy = ref.get_eps_xy(z=z, Nx=6, Ny=5)
                else:
                    e, gx, gy = ref.get_eps_xy(Nx=6, Ny=5)
                data.append(np.real(e))
            p = panels(fig)
            # the colour range also covers the background of the first layer
            first = (ref.phc.claddings[0] if cl else
                     ref.phc.layers[0]).eps_b if gme else ref.layer.eps_b
            lo = min([d.min() for d in data] + [first])
            hi = max([d.max() for d in data] + [first])
            if R.check(len(p) == len(zz), "eps_ft:panels", "%s: %d panels" %
                       (desc, len(p))):
                for i, (ax, d) in enumerate(zip(p, data)):
                    the_image(R, "eps_ft", desc, ax, d,
                              (gx[0], gx[-1], gy[0], gy[-1]), (lo, hi))
                    if gme:
                        nm = "layer %d" % i
                        if cl and i == 0:
                            nm = "lower cladding"
                        if cl and i == len(zz) - 1:
                            nm = "upper cladding"
                        R.check(nm in ax.get_title(), "eps_ft:title",
                                "%s: title %r of %s" % (desc, ax.get_title(),
                                                        nm))
            plt.close("all")


def run_recip(R, l, s, ref):
    ret, fig = Fig(R, "reciprocal", "reciprocal", [s])(
        lambda: l.viz.reciprocal(s))
    ax = fig.axes[0]
    R.check(len(ax.lines) == 1 and same(ax.lines[0].get_xdata(), ref.gvec[0])
            and same(ax.lines[0].get_ydata(), ref.gvec[1]), "reciprocal",
            "reciprocal lattice plot")
    R.trace()
    plt.close("all")


def run_exc(c, R):
    import legume as l
    lat = structs.lattice(l, c["lat"])

    def mk():
        phc = structs.build_phc(l, lat, S["two"])
        e = l.ExcitonSchroedEq(phc, z=.1, V_shapes=c["v"], a=3e-7,
                               M=.2 * sc.m_e, E0=1.5, loss=1e-4,
                               osc_str=[1e16] * 3, gmax=1.5)
        e.run(kpoints=KL["path"].copy(), numeig_ex=3, verbose_ex=False)
        return e

    ref, s = mk(), mk()
    for cb in (True, False):
        for lay in layouts(l):
            desc = "pot_ft %s cbar=%s %s" % (c, cb, sorted(lay))
            ret, fig = Fig(R, "pot_ft", desc, [s])(
                lambda: l.viz.pot_ft(s, Nx=6, Ny=5, cbar=cb, **lay))
            if fig is None:
                continue
            v, gx, gy = ref.get_pot_xy(Nx=6, Ny=5)
            p = panels(fig)
            if R.check(len(p) == 1, "pot_ft:panels", desc):
                the_image(R, "pot_ft", desc, p[0], np.real(v),
                          (gx[0], gx[-1], gy[0], gy[-1]), (0, abs(c["v"])))
            plt.close("all")
    for kind, mind, val, (n1, n2), cb in itertools.product(
            (0, 3, 4, -1), (0, 2, -1), ("re", "im", "abs2", "ABS2"),
            ((7, 5), (3, 6)), (True, False)):
        desc = "wavef %s kind=%d mind=%d %s %s" % (c, kind, mind, val,
                                                   (n1, n2))
        R.state(desc + str(cb))
        ret, fig = Fig(R, "wavef", desc, [s])(
            lambda: l.viz.wavef(s, kind, mind, val=val, N1=n1, N2=n2, cbar=cb))
        if ret is None:
            continue
        F, gx, gy = ref.get_wavef_xy(kind, mind, Nx=n1, Ny=n2)
        Z = dict(re=np.real(F), im=np.imag(F),
                 abs2=np.real(F)**2 + np.imag(F)**2)[val.lower()]
        m = np.abs(Z).max()
        p = panels(ret)
        if R.check(len(p) == 1, "wavef:panels", desc):
            the_image(R, "wavef", desc, p[0], Z,
                      (gx[0], gx[-1], gy[0], gy[-1]),
                      (0 if val.lower() == "abs2" else -m, m)
                      if m > 1e-10 else None,
                      1e-12 if m > 1e-10 else 1)
            t = p[0].get_title()
            R.check("%.2E" % np.real(ref.eners[kind, mind]) in t,
                    "wavef:title", "%s: title %r" % (desc, t))
            R.check((p[0].images[0].colorbar is not None) == cb, "wavef:cbar",
                    desc)
        plt.close("all")
    run_recip(R, l, s, ref)


# ------------------------------------------------------------------- shapes
def outline(l, sh, npts):
    """Signed implicit function: zero on the boundary of the shape."""
    if isinstance(sh, l.Circle):
        return lambda x, y: np.hypot(x - sh.x_cent, y - sh.y_cent) / sh.r - 1
    if isinstance(sh, l.Ellipse):
        co, si = np.cos(sh.phi), np.sin(sh.phi)

        def f(x, y):
            X, Y = x - sh.x_cent, y - sh.y_cent
            return np.hypot((co * X + si * Y) / sh.rx,
                            (co * Y - si * X) / sh.ry) - 1
        return f
    return None


def run_shapes(c, R):
    import legume as l
    lat = structs.lattice(l, c["lat"])
    mk = [lambda: l.Circle(eps=2., r=.2, x_cent=.1, y_cent=-.2),
          lambda: l.Ellipse(eps=2., rx=.3, ry=.1, phi=.5, x_cent=-.1),
          lambda: l.Ellipse(eps=2., rx=.1, ry=.3, y_cent=.1),
          lambda: l.Poly(eps=3., x_edges=[0, .3, .1], y_edges=[0, .1, .4]),
          lambda: l.Square(eps=3., a=.3, x_cent=.1, y_cent=.2),
          lambda: l.Hexagon(eps=3., a=.2, x_cent=.1),
          lambda: l.FourierShape(eps=3., f_as=np.array([.2, .03]),
                                 f_bs=np.array([0.02]), npts=12),
          lambda: l.Poly(eps=3., x_edges=[0, .3, .1],
                         y_edges=[0, .1, .4]).rotate(.4)]
    gx, gy = lat.xy_grid(Nx=2, Ny=2)
    a1, a2 = lat.a1, lat.a2
    for n in (0, 1, 2, 3):
        for combo in itertools.product(range(len(mk)), repeat=n):
            if n == 3 and len(set(combo)) < 3:
                continue
            for pad, given in ((True, False), (False, True)):
                if n > 1 and pad != (sum(combo) % 2 == 0):
                    continue
                lay = l.ShapesLayer(lat)
                for i in combo:
                    lay.add_shape(mk[i]())
                R.state((c["lat"], combo, pad))
                desc = "shapes %s %s pad=%s" % (c, combo, pad)
                ax0 = plt.subplots()[1] if given else None
                before = snap(lay)
                n0 = len(plt.get_fignums())
                l.viz.shapes(lay, ax=ax0, npts=9, pad=pad)
                R.step()
                ax = plt.gcf().axes[0]
                R.check(snap(lay) == before, "shapes:state", desc)
                R.check(len(plt.get_fignums()) == max(n0, 1), "shapes:fig",
                        desc)
                offs = [np.zeros(2)] + ([a1, -a1, a2, -a2] if pad else [])
                lines = [np.array(q.get_data(), float) for q in ax.lines]
                used = [False] * len(lines)
                for i in combo:
                    sh = mk[i]()
                    f = outline(l, sh, 9)
                    for o in offs:
                        ok = False
                        for j, d in enumerate(lines):
                            if used[j]:
                                continue
                            x, y = d[0] - o[0], d[1] - o[1]
                            if f is not None:
                                ok = (np.max(np.abs(f(x, y))) < 1e-9 and
                                      len(x) == 9 and
                                      np.hypot(x[0] - x[-1], y[0] - y[-1]) <
                                      1e-9 and winds(x, y, sh.x_cent,
                                                     sh.y_cent))
                            else:
                                v = np.array([sh.x_edges, sh.y_edges])
                                ok = v.shape == (2, len(x)) and np.allclose(
                                    v, [x, y], atol=1e-12)
                            if ok:
                                used[j] = True
                                break
                        if not R.check(ok, "shapes:outline:%d" % i,
                                       "%s: outline of shape %d at offset %s "
                                       "not drawn" % (desc, i, o)):
                            break
                R.check(all(used), "shapes:extra", desc + ": extra outlines")
                R.check(same(ax.get_xlim(), gx, 1e-9) and
                        same(ax.get_ylim(), gy, 1e-9), "shapes:lim",
                        desc + ": axes limits")
                R.trace()
                plt.close("all")


def winds(x, y, cx, cy):
    """The closed outline goes once around its centre."""
    t = np.unwrap(np.arctan2(y - cy, x - cx))
    return abs(abs(t[-1] - t[0]) - 2 * np.pi) < 1e-6


# ---------------------------------------------------------------- abscissae
def run_x(c, R):
    import legume as l
    pts = [(0., 0.), (1., 0.), (-.5, 2.), (3., -1.)]
    for n in range(1, 6):
        for combo in itertools.product(range(4), repeat=n):
            k = np.array([pts[i] for i in combo]).T
            for ne, ku in itertools.product((1, 3), (False, True)):
                R.state((combo, ne, ku))
                k0 = k.copy()
                X0, X = l.viz.calculate_x(k, ne, ku)
                R.step()
                e = ref_x(k, ku)
                R.check(same(np.asarray(X0, float), e, 1e-12) and
                        X.shape == (n, ne) and
                        same(np.asarray(X, float), np.repeat(e[:, None], ne,
                                                             1), 1e-12),
                        "x", "calculate_x(%s, %d, %s) = %s, expected %s" %
                        (combo, ne, ku, X0, e))
                R.check(np.array_equal(k, k0), "x:mod", "input modified")
                R.trace()


def run_reject(c, R):
    import legume as l
    v = l.viz
    lat = structs.lattice(l, "square")
    g = gme_solver(l, lat, "hole", "line")
    p = pwe_solver(l, lat, "line", "te")
    phc = structs.build_phc(l, lat, S["two"])
    e = l.ExcitonSchroedEq(phc, z=.1, V_shapes=.02, a=3e-7, M=.2 * sc.m_e,
                           E0=1.5, loss=1e-4, osc_str=[1e16] * 3, gmax=1.01)
    e.run(kpoints=KL["line"].copy(), numeig_ex=2, verbose_ex=False)
    f = plt.figure()
    gs = f.add_gridspec(1, 1)[0]
    bad = [("eV without a", lambda: v.bands(g, eV=True)),
           ("eV without a, pwe", lambda: v.bands(p, eV=True)),
           ("eV a=0", lambda: v.bands(g, eV=True, a=0)),
           ("structure pwe", lambda: v.structure(p)),
           ("structure None", lambda: v.structure(None)),
           ("structure fig only", lambda: v.structure(phc, fig=f)),
           ("structure gs only", lambda: v.structure(phc, gridspec=gs)),
           ("eps_ft phc", lambda: v.eps_ft(phc)),
           ("eps_ft exc", lambda: v.eps_ft(e)),
           ("eps_ft fig only", lambda: v.eps_ft(g, fig=f)),
           ("eps_ft gs only", lambda: v.eps_ft(g, gridspec=gs)),
           ("pot_ft gme", lambda: v.pot_ft(g)),
           ("pot_ft pwe", lambda: v.pot_ft(p)),
           ("pot_ft fig only", lambda: v.pot_ft(e, fig=f)),
           ("pot_ft gs only", lambda: v.pot_ft(e, gridspec=gs)),
           ("wavef gme", lambda: v.wavef(g, 0, 0)),
           ("wavef bad val", lambda: v.wavef(e, 0, 0, val="abs")),
           ("wavef bad val2", lambda: v.wavef(e, 0, 0, val="x")),
           ("wavef bad k", lambda: v.wavef(e, 7, 0)),
           ("wavef bad m", lambda: v.wavef(e, 0, 7)),
           ("field exc", lambda: v.field(e, "h", 0, 0, z=0.)),
           ("field phc", lambda: v.field(phc, "h", 0, 0, z=0.)),
           ("field bad quantity", lambda: v.field(g, "q", 0, 0, z=0.)),
           ("field bad component", lambda: v.field(g, "h", 0, 0, z=0.,
                                                   component="w")),
           ("field bad val", lambda: v.field(g, "h", 0, 0, z=0., val="abs2")),
           ("field bad k", lambda: v.field(g, "h", 9, 0, z=0.)),
           ("field bad m", lambda: v.field(g, "h", 0, 9, z=0.)),
           ("field no slice", lambda: v.field(g, "h", 0, 0)),
           ("pwe bad val", lambda: v.field(p, "h", 0, 0, component="z",
                                           val="q"))]
    for x, y, z in itertools.product((None, 0., .1), repeat=3):
        if (x is None) + (y is None) + (z is None) < 2:
            kw = {q: w for q, w in zip("xyz", (x, y, z)) if w is not None}
            bad.append(("field slices %s" % kw,
                        lambda kw=kw: v.field(g, "h", 0, 0, **kw)))
            bad.append(("pwe slices %s" % kw,
                        lambda kw=kw: v.field(p, "h", 0, 0, component="z",
                                              **kw)))
    for q in "xy":
        bad.append(("pwe slice " + q, lambda q=q: v.field(
            p, "h", 0, 0, component="z", **{q: .1})))
    for name, fn in bad:
        before = [snap(o) for o in (g, p, e, phc)]
        R.state(name)
        try:
            fn()
        except Exception as x:
            R.outcome(type(x).__name__)
        else:
            R.fail("accepted:" + name, name + ": request accepted")
        R.step()
        R.trace()
        R.check(before == [snap(o) for o in (g, p, e, phc)],
                "reject:state", name + ": rejected request changed a solver")
        for n in plt.get_fignums():
            if n != f.number:
                plt.close(n)
    plt.close("all")


def run_case(c, R):
    R.state(c)
    RENDERED.clear()
    plt.close("all")
    globals()["run_" + c["kind"]](c, R)
    plt.close("all")
