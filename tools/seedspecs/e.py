SEEDS = [
dict(id='c21-trunc', property='C21',
 edits=[('legume/exc/exc.py', "                 truncate_g='abs'):\n", "                 truncate_g='tbt'):\n")],
 needs='an exciton solver built without naming the truncation',
 breaks="The documented default truncation 'abs' of the exciton solver becomes 'tbt'.",
 demo='''
import legume.constants as cs
phc = hole(r=0.2)
kw = dict(z=0.2, V_shapes=.05, a=4e-7, M=0.2 * cs.m_e, E0=1.4, loss=0., gmax=1.2)
a = legume.ExcitonSchroedEq(phc, **kw)
b = legume.ExcitonSchroedEq(phc, truncate_g='abs', **kw)
assert a.gvec.shape == b.gvec.shape, (a.gvec.shape, b.gvec.shape)
'''),
dict(id='c21-pot-order', property='C21',
 edits=[('legume/exc/exc.py', "    def get_pot_xy(self, Nx=100, Ny=100):\n", "    def get_pot_xy(self, Ny=100, Nx=100):\n")],
 needs='the numbers of points of a potential map given by position',
 breaks='The positional order of the two numbers of points is exchanged.',
 demo='''
import legume.constants as cs
phc = hole(r=0.2)
e = legume.ExcitonSchroedEq(phc, z=0.2, V_shapes=.05, a=4e-7, M=0.2 * cs.m_e, E0=1.4, loss=0., gmax=1.2)
out = e.get_pot_xy(4, 7)
assert len(out[-2]) == 4 and len(out[-1]) == 7, [np.shape(o) for o in out]
'''),
dict(id='c21-default-k', property='C21',
 edits=[('legume/pwe/pwe.py', "    def run(self, kpoints=np.array([[0], [0]]), pol='te', numeig=10):\n", "    def run(self, kpoints=np.array([[0.], [0.]]), pol='te', numeig=8):\n")],
 needs='a 2D run without the number of modes',
 breaks='The default number of modes of the 2D solver becomes 8.',
 demo='''
lay = legume.ShapesLayer(legume.Lattice('square'), eps_b=4.)
lay.add_shape(legume.Circle(eps=1., r=.2))
p = legume.PlaneWaveExp(lay, gmax=3)
p.run()
assert p.freqs.shape == (1, 10), p.freqs.shape
'''),
dict(id='c21-qclip', property='C21',
 edits=[('legume/viz.py', "          Q_clip=1e10,\n", "          Q_clip=1e5,\n")],
 needs='a coloured band plot of modes with very different quality factors',
 breaks='By default quality factors are clipped at 1e5.',
 demo='''
import matplotlib.pyplot as plt
phc = hole(r=0.2, d=.3)
g = legume.GuidedModeExp(phc, gmax=2.01)
g.run(kpoints=np.array([[.01, 3.], [.005, 0.]]), gmode_inds=[0, 1], numeig=4, compute_im=True, verbose=False)
g._freqs_im[0, 0] = g._freqs[0, 0] / 2e7
def cols(**kw):
    fig, ax = plt.subplots()
    legume.viz.bands(g, Q=True, ax=ax, **kw)
    return [(float(c.norm.vmin), float(c.norm.vmax)) for c in ax.collections if c.get_array() is not None]
a, b = cols(), cols(Q_clip=1e10)
assert len(a) and a == b, (a, b)
'''),
dict(id='c22-well-eV', property='C22',
 edits=[('legume/phc/layer.py', "a = {self.a*10**9:.1f} nm", "a = {self.a*10**8:.1f} nm")],
 needs='the printed description of a structure with a quantum well',
 breaks='The printed lattice constant of a well is ten times too small for the stated unit.',
 demo='''
import re
phc = hole(r=0.2)
phc.add_qw(z=0.2, V_shapes=0., a=437e-9, M=2e-31, E0=1.2, loss=1e-3, osc_str=np.array([5e19, 5e19, 0.]))
m = re.search(r'a = ([-+0-9.e]+) nm', repr(phc))
assert m and abs(float(m.group(1)) - 437) < .1, repr(phc)
'''),
dict(id='c22-avg', property='C22',
 edits=[('legume/phc/layer.py', "        rep = 'ShapesLayer(eps_b = %.2f, d = %.2f' % (self.eps_b, self.d)\n", "        rep = 'ShapesLayer(eps_b = %.2f, d = %.2f' % (self.eps_avg, self.d)\n")],
 needs='the printed description of a layer with shapes',
 breaks='The average permittivity is printed as the background of a layer.',
 demo='''
import re
phc = hole(eps_b=12., r=0.3)
m = re.search(r'eps_b = ([-+0-9.e]+), d = 0.50', repr(phc))
assert m and abs(float(m.group(1)) - 12.) < .01, repr(phc)
'''),
dict(id='c22-pwe-eff', property='C22',
 edits=[('legume/pol/pol.py', "                val = getattr(self.gme, option)\n", "                val = getattr(self.gme, option, None)\n")],
 needs='the description of a polariton solver before its first run',
 breaks='Options which are not set yet are listed (as None).',
 demo='''
phc = hole(r=0.2)
phc.add_qw(z=0.2, V_shapes=0., a=437e-9, M=2e-31, E0=1.2, loss=1e-3, osc_str=np.array([5e19, 5e19, 0.]))
h = legume.HopfieldPol(phc, gmax=1.01)
assert 'gmode_inds' not in repr(h), repr(h)
'''),
dict(id='c17-lbfgs-list', property='C17',
 edits=[('legume/minimize.py', "            self.of_list.append(self.of_last)\n", "            self.of_list.append(min(self.of_last, self.of_list[-1]))\n"),
        ('legume/minimize.py', "            self.params = xk\n", "            self.params = np.clip(xk, -1., 1.) if self.bounds is None else xk\n")],
 needs='an unbounded optimisation whose parameters leave [-1, 1]',
 breaks='The current parameters shown to the callback are clipped to [-1, 1].',
 demo='''
import autograd.numpy as npa
seen = []
from legume.minimize import Minimize
m = Minimize(lambda p: npa.sum((p - 3.)**2))
p, of = m.lbfgs(np.array([.5, -.5]), Nepochs=10, callback=lambda o: seen.append(np.array(o.params)))
assert np.allclose(seen[-1], p), (seen, p)
'''),
dict(id='c17-bounds-tuple', property='C17',
 edits=[('legume/minimize.py', "                if len(bounds) == 2:\n                    return [tuple(bounds) for i in range(self.params.size)]\n", "                if len(bounds) == 2:\n                    return [(min(bounds[0] or 0, bounds[1] or 0), bounds[1]) for i in range(self.params.size)]\n")],
 needs='a one-sided bound without lower limit',
 breaks='A missing lower bound becomes a bound at zero (or at the upper bound).',
 demo='''
import autograd.numpy as npa
from legume.minimize import Minimize
m = Minimize(lambda p: npa.sum((p + 2.)**2))
p, of = m.lbfgs(np.array([.5, .2]), Nepochs=20, bounds=[None, 1.])
assert np.allclose(p, -2., atol=1e-3), p
'''),
dict(id='c18-tolerance', property='C18',
 edits=[('legume/gds.py', "                                     tolerance=tolerance)\n", "                                     tolerance=tolerance * max(1., shape.r))\n")],
 needs='a circle with a radius above one unit',
 breaks='Large circles are approximated more coarsely than the tolerance.',
 demo='''
import gdspy
phc = legume.PhotCryst(legume.Lattice([6., 0.], [0., 6.]))
phc.add_layer(d=.5, eps_b=12.)
phc.add_shape(legume.Circle(eps=1., r=2.5))
f = os.path.join(os.environ['SCRATCH'], 'o.gds')
legume.gds.generate_gds(phc, f, tolerance=0.02)
lib = gdspy.GdsLibrary(infile=f)
pts = lib.cells['CELL'].get_polygons()[0]
mid = (pts + np.roll(pts, -1, axis=0)) / 2
assert np.all(np.abs(np.hypot(*mid.T) - 2.5) < .0205), np.abs(np.hypot(*mid.T) - 2.5).max()
'''),
dict(id='c18-hex-type', property='C18',
 edits=[('legume/gds.py', "            if type(shape) in [Poly, Square, Hexagon]:\n", "            if hasattr(shape, 'x_edges') or type(shape) in [Poly, Square, Hexagon]:\n"),
        ('legume/gds.py', "                    for (x, y) in zip(shape.x_edges[:-1], shape.y_edges[:-1])\n", "                    for (x, y) in zip(shape.x_edges[:-1:max(1, len(shape.x_edges) // 64)], shape.y_edges[:-1:max(1, len(shape.x_edges) // 64)])\n")],
 needs='a polygon with more than 127 vertices',
 breaks='Polygons with many vertices are thinned out on export.',
 demo='''
import gdspy
ph = np.linspace(0, 2 * np.pi, 150, endpoint=False)
r = .3 + .02 * (np.arange(150) % 2)
phc = legume.PhotCryst(legume.Lattice('square'))
phc.add_layer(d=.5, eps_b=12.)
phc.add_shape(legume.Poly(eps=1., x_edges=r * np.cos(ph), y_edges=r * np.sin(ph)))
f = os.path.join(os.environ['SCRATCH'], 'o.gds')
legume.gds.generate_gds(phc, f, unit=1e-6)
lib = gdspy.GdsLibrary(infile=f)
pts = lib.cells['CELL'].get_polygons()[0]
assert len(pts) == 150, len(pts)
'''),
dict(id='c20-extend', property='C20',
 edits=[('legume/utils.py', "    z = np.zeros(shape, dtype=vals.dtype)\n    z[inds] = vals\n", "    z = np.zeros(shape, dtype=vals.dtype)\n    z[inds[:len(vals)] if np.ndim(inds) == 1 and vals.dtype.kind == 'f' else inds] = vals if vals.dtype.kind == 'c' else np.abs(vals)\n")],
 needs='real values of both signs',
 breaks='Real values lose their sign.',
 demo='''
from legume.utils import extend
z = extend(np.array([1., -2.]), np.array([0, 2]), (3, ))
assert np.allclose(z, [1., 0., -2.]), z
'''),
dict(id='c03-custom-grid', property='C03',
 edits=[('legume/phc/lattice.py', "            if np.inner(a1, a2) == 0:\n", "            if np.inner(a1, a2) <= 0:\n")],
 needs='primitive vectors with an obtuse angle',
 breaks='Lattices with an obtuse angle are taken as rectangular, so the default grid spans a single period.',
 demo='''
lat = legume.Lattice([1., 0.], [-.5, 1.])
x, y = lat.xy_grid(Nx=3, Ny=3)
assert np.allclose(x, [-1, 0, 1]) and np.allclose(y, [-1, 0, 1]), (x, y)
'''),
dict(id='c03-hexname', property='C03',
 edits=[('legume/phc/lattice.py', "        delta_k_norm = mod_delta_k / np.sum(mod_delta_k)\n", "        delta_k_norm = mod_delta_k / np.sqrt(np.sum(mod_delta_k) * np.sum(np.abs(mod_delta_k[mod_delta_k > 1e-3])))\n")],
 needs='a path with steps shorter than 1e-3',
 breaks='Very short steps do not count in the length of the path.',
 demo='''
lat = legume.Lattice('square')
p = lat.bz_path([[0., 0.], [5e-4, 0.], [1e-2, 0.]], [2, 3])
assert np.allclose(p['k_indexes'], [0., .05, 1.]), p['k_indexes']
'''),
dict(id='c15-tbt-layer', property='C15',
 edits=[('legume/exc/exc.py', "            self.layer = phc.layers[layer_index - 1]\n", "            self.layer = phc.layers[min(layer_index, len(phc.layers)) - 1 if phc.layers[layer_index - 1].shapes else 0]\n")],
 needs='a well in an unpatterned layer above a patterned first one',
 breaks='A well in a layer without shapes feels the potential of the shapes in the first layer.',
 demo='''
import legume.constants as cs
phc = hole(r=0.2)
phc.add_layer(d=.3, eps_b=4.)
e = legume.ExcitonSchroedEq(phc, z=.6, V_shapes=.05, a=4e-7, M=0.2 * cs.m_e, E0=1.4, loss=0., gmax=1.01)
e.run(kpoints=np.array([[0.], [0.]]), numeig_ex=1, verbose_ex=False)
assert abs(np.ravel(e.eners)[0] - 1.4) < 1e-9, e.eners
'''),
dict(id='c02-far-img', property='C02',
 edits=[('legume/phc/layer.py', "                    in_shape = shape.is_inside(xmesh + n1 * a1[0] + n2 * a2[0],\n                                               ymesh + n1 * a1[1] + n2 * a2[1])\n", "                    in_shape = shape.is_inside(xmesh + n1 * a1[0] - n2 * a2[0],\n                                               ymesh + n1 * a1[1] - n2 * a2[1]) if np.abs(np.inner(a1[:2], a2[:2])) < 1e-12 else shape.is_inside(\n                                                   xmesh + (n1 - 0) * a1[0] + n2 * a2[0], ymesh + n1 * a1[1] + n2 * a2[1]) * (n1 * n2 <= 2)\n")],
 needs='a non-orthogonal lattice and a shape whose image several cells away covers the point',
 breaks='Some lattice images are left out.',
 demo='''
lat = legume.Lattice([1., 0.], [.5, 1.])
phc = legume.PhotCryst(lat)
phc.add_layer(d=.5, eps_b=12.)
phc.add_shape(legume.Circle(eps=1., x_cent=3.5, y_cent=1., r=.2))
e = phc.get_eps((np.array([0.]), np.array([0.]), np.array([.2])))
assert np.allclose(e, 1.), e
'''),
]
