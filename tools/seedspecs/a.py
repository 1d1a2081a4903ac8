SEEDS = [
dict(id='c01-rotate-centre', property='C01',
 edits=[('legume/phc/shapes.py', '''        com_x = bd.sum((xj + bd.roll(xj, -1)) * (xj * bd.roll(yj, -1) - \\
                    bd.roll(xj, -1) * yj))/6/self.area
        com_y = bd.sum((yj + bd.roll(yj, -1)) * (xj * bd.roll(yj, -1) - \\
                    bd.roll(xj, -1) * yj))/6/self.area
''', '''        com_x = bd.sum(xj[:-1]) / (xj.size - 1)
        com_y = bd.sum(yj[:-1]) / (yj.size - 1)
''')],
 needs='a polygon whose vertices are unevenly spread along its outline (regular polygons and triangles hide it), rotated',
 breaks='Rotation is about the mean of the vertices instead of the centre of mass, so the rotated region and its coefficients are displaced.',
 demo='''
p = legume.Poly(eps=5., x_edges=[0., 2., 2., 1.5, 1., 0.], y_edges=[0., 0., 1., 1., 1., 1.])
p.rotate(np.pi)
# the rectangle [0,2]x[0,1] is its own image under a half turn about its centre
assert bool(p.is_inside(np.array([1.95]), np.array([0.5]))[0])
assert bool(p.is_inside(np.array([0.05]), np.array([0.5]))[0])
q = legume.Poly(eps=5., x_edges=[0., 2., 2., 0.], y_edges=[0., 0., 1., 1.])
g = np.array([[0.7, 1.3], [0.2, -2.]])
assert np.allclose(p.compute_ft(g), q.compute_ft(g), atol=1e-9)
'''),
dict(id='c01-radius-half', property='C01',
 edits=[('legume/phc/shapes.py', "        if np.any(R_phi < 0):\n",
 "        # R(phi) repeats itself over the second half of the period\n        if np.any(R_phi[:npts // 2] < 0):\n")],
 needs='a polar expansion that becomes negative only for phi > pi (a sine term)',
 breaks='A FourierShape with a negative radius is accepted.',
 demo='''
try:
    legume.FourierShape(eps=2., f_as=np.array([0.4]), f_bs=np.array([0.3]))
except ValueError:
    pass
else:
    raise AssertionError("negative radius accepted")
'''),
dict(id='c02-bounds-cladding', property='C02',
 edits=[('legume/phc/phc.py', '''        for layer in self.layers + self.claddings:
            eps_min = min([eps_min, layer.eps_b])
''', '''        for layer in self.claddings[:1] + self.layers:
            eps_min = min([eps_min, layer.eps_b])
''')],
 needs='an upper cladding (its background or a shape in it) holding the extreme permittivity of the structure',
 breaks='get_eps_bounds ignores the upper cladding.',
 demo='''
phc = hole()
phc.add_shape(legume.Circle(eps=20., r=0.2), cladding='u')
phc.add_shape(legume.Circle(eps=0.5, r=0.2), cladding='l')
assert phc.get_eps_bounds() == (0.5, 20.), phc.get_eps_bounds()
'''),
dict(id='c02-rejected-layer', property='C02',
 edits=[('legume/phc/phc.py', '''        if layer_type.lower() == 'shapes':
            layer = ShapesLayer(self.lattice, z_min, z_min + d, eps_b=eps_b)
''', '''        self.claddings[1].z_min = z_min + d
        if layer_type.lower() == 'shapes':
            layer = ShapesLayer(self.lattice, z_min, z_min + d, eps_b=eps_b)
'''), ('legume/phc/phc.py', '''        self.claddings[1].z_min = z_min + d
        self.layers.append(layer)
''', '''        self.layers.append(layer)
''')],
 needs='a rejected add_layer (unknown layer type) followed by a query of the structure',
 breaks='A rejected add_layer moves the upper cladding.',
 demo='''
phc = hole()
try:
    phc.add_layer(d=1., eps_b=3., layer_type='nonsense')
except ValueError:
    pass
assert phc.claddings[1].z_min == phc.layers[-1].z_max, (phc.claddings[1].z_min)
'''),
dict(id='c03-second-gamma', property='C03',
 edits=[('legume/phc/lattice.py', "            angs[index_g] = ang_g\n", "            angs[index_g[0][:1]] = ang_g\n")],
 needs='a Brillouin-zone path that passes through Gamma more than once, with a requested convention other than angle 0',
 breaks='Only the first Gamma point of a path gets the requested symmetry angle.',
 demo='''
lat = legume.Lattice('square')
p = lat.bz_path(['G', 'X', 'M', 'G'], [3], symm_g=[np.pi, np.pi])
assert p['angles'][0] == 45 and p['angles'][-1] == 45, p['angles']
'''),
dict(id='c04-abs-conj', property='C04',
 edits=[('legume/gme/gme.py', "                (eps_ft_pos, bd.conj(eps_ft_pos[-2::-1])))\n",
         "                (eps_ft_pos, eps_ft_pos[-2::-1]))\n")],
 needs='circular truncation and a cell without inversion symmetry (complex coefficients)',
 breaks='The coefficient at -G equals the one at G instead of its complex conjugate.',
 demo='''
phc = hole(x=0.13, y=0.07)
g = legume.GuidedModeExp(phc, gmax=1.01)
G = g.G1_unique
assert np.allclose(g.T1_unique[1], phc.layers[0].compute_ft(G), atol=1e-9)
'''),
dict(id='c05-near-g', property='C05', also=['C06'],
 edits=[('legume/gme/slab_modes.py', "            compute_g = np.abs(g - g_array[ig - 1]) > 1e-8\n",
         "            compute_g = np.abs(g - g_array[ig - 1]) > 1e-3\n")],
 needs='two wavevector amplitudes closer than 1e-3 but not equal',
 breaks='Close but different wavevectors get identical guided-mode frequencies.',
 demo='''
from legume.gme.slab_modes import guided_modes
eps, d = np.array([1., 12., 1.]), np.array([0.5])
g = np.array([2., 2.0009])
om, co = guided_modes(g, eps, d, n_modes=1, step=0.01, tol=1e-10, pol='TE')
om1, _ = guided_modes(g[1:], eps, d, n_modes=1, step=0.01, tol=1e-10, pol='TE')
assert abs(om[1][0] - om1[0][0]) < 1e-8, (om, om1)
'''),
dict(id='c06-sparse-inds', property='C06',
 edits=[('legume/gme/gme.py', "                                       n_modes=1 + np.amax(self.gmode_tm) // 2,\n",
         "                                       n_modes=self.gmode_tm.size,\n")],
 needs='a list of guided-mode indexes that skips a TM mode, e.g. [0, 3]',
 breaks='Higher TM guided modes are silently left out of the expansion when a lower one is not requested.',
 demo='''
phc = hole(d=1.5)
g = legume.GuidedModeExp(phc, gmax=1.01)
g.run(kpoints=np.array([[2.], [0.3]]), gmode_inds=[0, 3], numeig=4, compute_im=False, verbose=False)
assert list(g.gmode_include[0]) == [0, 3], g.gmode_include
'''),
dict(id='c08-interp-range', property='C08', also=['C06'],
 edits=[('legume/gme/gme.py', "            g_array = np.linspace(0, Gmax + kmax, self.gmode_npts)\n",
         "            g_array = np.linspace(0, Gmax, self.gmode_npts)\n")],
 needs='interpolated guided modes and a wavevector away from Gamma, so that |k + G| exceeds the largest |G|',
 breaks='Guided modes at |k + G| beyond the largest |G| are frozen at the value of the last grid point.',
 demo='''
phc = hole()
k = np.array([[2.], [1.]])
f = []
for m in ('exact', 'interp'):
    g = legume.GuidedModeExp(phc, gmax=1.01)
    g.run(kpoints=k, gmode_compute=m, gmode_inds=[0], numeig=5, compute_im=False, verbose=False)
    f.append(g.freqs)
assert np.abs(f[0] - f[1]).max() < 1e-4, f
'''),
dict(id='c08-eigsh-shift', property='C08',
 edits=[('legume/gme/gme.py', "                                   sigma=(self.eig_sigma * 2 * np.pi)**2 + 1)\n",
         "                                   sigma=(self.eig_sigma * 2 * np.pi)**2)\n")],
 needs='the iterative eigensolver with a target frequency inside the spectrum where the shift by one changes which modes are nearest',
 breaks='The iterative solver returns modes around the wrong target frequency.',
 demo='''
phc = hole()
k = np.array([[0.5], [0.2]])
g0 = legume.GuidedModeExp(phc, gmax=2.01)
g0.run(kpoints=k, gmode_inds=[0, 1], numeig=20, compute_im=False, verbose=False)
f = g0.freqs[0]
ok = True
for i in range(4, 16):
    s = f[i] + 1e-4
    a = legume.GuidedModeExp(phc, gmax=2.01)
    a.run(kpoints=k, gmode_inds=[0, 1], numeig=1, eig_sigma=s, eig_solver='eigsh', compute_im=False, verbose=False)
    ok = ok and abs(a.freqs[0, 0] - f[np.argmin(np.abs(f - s))]) < 1e-6
assert ok
'''),
dict(id='c09-label-order', property='C09',
 edits=[('legume/gme/gme.py', "                    symm = symm1[i_near[i_sort]]\n", "                    symm = symm1[i_near]\n")],
 needs="kz_symmetry='both' with a target frequency (eig_sigma) inside the spectrum",
 breaks='Parity labels are listed by distance from the target instead of by frequency.',
 demo='''
phc = hole()
kw = dict(kpoints=np.array([[1.], [0.]]), angles=np.array([0.]), gmode_inds=[0, 1], compute_im=False, verbose=False)
r = {}
for s in ('odd', 'even'):
    g = legume.GuidedModeExp(phc, gmax=2.01)
    g.run(numeig=9, kz_symmetry=s, **kw)
    r[s] = g.freqs[0]
g = legume.GuidedModeExp(phc, gmax=2.01)
g.run(numeig=6, kz_symmetry='both', eig_sigma=0.42, **kw)
for f, p in zip(g.freqs[0], g.kz_symms[0]):
    assert np.abs(r['even' if p > 0 else 'odd'] - f).min() < 1e-8, (g.freqs, g.kz_symms, r)
'''),
dict(id='c11-upper-d', property='C11',
 edits=[('legume/gme/gme.py', '''                            self.eps_array[-1] * bd.exp(1j*chis[-1, :] * \\
''', '''                            self.eps_array[0] * bd.exp(1j*chis[-1, :] * \\
''')],
 needs='a slab with different claddings and a TE field queried in the upper one',
 breaks='D in the upper cladding is computed with the permittivity of the lower cladding.',
 demo='''
phc = hole(eps_l=1., eps_u=2.1)
g = legume.GuidedModeExp(phc, gmax=1.01)
g.run(kpoints=np.array([[2.5], [1.]]), gmode_inds=[0], numeig=2, verbose=False, compute_im=False)
k, z, h = np.array([2.5, 1.]), 0.8, 1e-5
gx, gy = g.gvec + k[:, None]
def H(z): return g.ft_field_xy('H', 0, 0, z)
Hx, Hy, Hz = H(z)
dz = [(a - b) / 2 / h for a, b in zip(H(z + h), H(z - h))]
om = 2 * np.pi * g.freqs[0, 0]
curl = [1j * gy * Hz - dz[1], dz[0] - 1j * gx * Hz, 1j * gx * Hy - 1j * gy * Hx]
D = g.ft_field_xy('D', 0, 0, z)
r = [np.abs(np.abs(c / om) - np.abs(d)).max() for c, d in zip(curl, D)]
assert max(r) < 1e-5, r
'''),
dict(id='c13-stale-counts', property='C13',
 edits=[('legume/gme/gme.py', "        self.even_counts = []\n        self.odd_counts = []\n\n        num_k",
         "        if len(getattr(self, 'even_counts', [])) != kpoints.shape[1]:\n            self.even_counts = []\n            self.odd_counts = []\n\n        num_k")],
 needs='two parity-separated runs of the same object with the same number of wavevectors and different guided-mode indexes',
 breaks='The second run splits the basis according to the first one.',
 demo='''
phc = hole()
kw = dict(kpoints=np.array([[1.], [0.]]), angles=np.array([0.]), compute_im=False, verbose=False, kz_symmetry='both', numeig=4)
g = legume.GuidedModeExp(phc, gmax=2.01)
g.run(gmode_inds=[0, 1], **kw)
g.run(gmode_inds=[0, 1, 2], **kw)
f = legume.GuidedModeExp(phc, gmax=2.01)
f.run(gmode_inds=[0, 1, 2], **kw)
assert np.allclose(np.abs(g.eigvecs[0]), np.abs(f.eigvecs[0]), atol=1e-6)
'''),
dict(id='c16-frac-wells', property='C16',
 edits=[('legume/pol/pol.py', '''            +bd.sum(bd.abs(eigenvectors[2*self.N_max+self.M_max*self.num_QWs:,band])**2)
''', '''            +bd.sum(bd.abs(eigenvectors[2*self.N_max+self.M_max:,band])**2)
''')],
 needs='two or more quantum wells and modes with anti-resonant components',
 breaks='Excitonic fractions count some photonic components as excitonic, so fractions do not add up to one.',
 demo='''
phc = hole(d=0.6, eps_l=1.)
for z in (0.2, 0.3, 0.4):
    phc.add_qw(z=z, V_shapes=0.1, a=4e-7, M=2e-31, E0=1.3, loss=1e-4, osc_str=[4e20, 4e20, 0])
p = legume.HopfieldPol(phc, gmax=1.01)
p.run(kpoints=np.array([[1.], [0.5]]), gme_options=dict(gmode_inds=[0, 1], numeig=4, verbose=False),
      exc_options=dict(numeig_ex=4, verbose_ex=False), verbose=False)
s = p.fractions_ex + p.fractions_ph
assert np.abs(s - 1).max() < 1e-9, np.abs(s - 1).max()
'''),
dict(id='c17-callback-bounds', property='C17',
 edits=[('legume/minimize.py', '''            if bounds:
                # As in''', '''            if callback is not None:
                callback(self)

            if bounds:
                # As in'''), ('legume/minimize.py', '''                self.params[self.params > ubs] = ubs[self.params > ubs]

            if callback is not None:
                callback(self)

''', '''                self.params[self.params > ubs] = ubs[self.params > ubs]

''')],
 needs='a callback and bounds that an Adam step would cross',
 breaks='The callback sees parameters outside the bounds (before they are snapped back).',
 demo='''
import autograd.numpy as npa, io, contextlib
from legume.minimize import Minimize
seen = []
o = Minimize(lambda p: npa.sum(p))
with contextlib.redirect_stdout(io.StringIO()):
    o.adam(np.array([0.05, 0.9]), Nepochs=4, step_size=0.1, bounds=[0., 1.], callback=lambda m: seen.append(m.params.copy()))
assert all((s >= 0).all() and (s <= 1).all() for s in seen), seen
'''),
dict(id='c18-layer-number', property='C18',
 edits=[('legume/gds.py', "    for i, layer in enumerate(phc.layers):\n", "    for i, layer in enumerate([l for l in phc.layers if l.shapes]):\n")],
 needs='a crystal with an unpatterned layer below a patterned one',
 breaks='Outlines are exported on the wrong layout layer.',
 demo='''
import gdspy
phc = legume.PhotCryst(legume.Lattice('square'))
phc.add_layer(d=0.2, eps_b=2.)
phc.add_layer(d=0.3, eps_b=9.)
phc.add_shape(legume.Circle(eps=1., r=0.2))
f = os.path.join(os.environ['SCRATCH'], 'x.gds')
import legume.gds as lg
lg.generate_gds(phc, f)
cell = gdspy.GdsLibrary(infile=f).top_level()[0]
assert cell.get_layers() == {1}, cell.get_layers()
'''),
dict(id='c18-raster-shape', property='C18',
 edits=[('legume/gds.py', "                      (np.array(raster.shape)[np.newaxis, :] - 1) - 0.5).T\n",
         "                      (raster.shape[0] - 1) - 0.5).T\n")],
 needs='a raster with different numbers of points along the two lattice directions',
 breaks='Traced outlines are stretched along the second lattice vector.',
 demo='''
import gdspy
import legume.gds as lg
r = np.zeros((11, 21)); r[4:7, 8:13] = 1.
f = os.path.join(os.environ['SCRATCH'], 'x.gds')
lg.generate_gds_raster(legume.Lattice('square'), r, f, cell_bound=False)
cell = gdspy.GdsLibrary(infile=f).top_level()[0]
b = cell.get_bounding_box()
assert np.allclose(b[0] + b[1], 0, atol=1e-6), b
'''),
dict(id='c20-layer-top', property='C20',
 edits=[('legume/utils.py', "    while z > z_max and lind < N_layers:\n", "    while z >= z_max and lind < N_layers:\n"),
        ('legume/utils.py', "    if z > z_max and lind == N_layers: lind += 1\n", "    if z >= z_max and lind == N_layers: lind += 1\n")],
 needs='a height exactly on an interface',
 breaks='A height on the upper interface of a layer is attributed to the layer above (a point on the lower interface of the slab was in the cladding).',
 demo='''
from legume.utils import z_to_lind
phc = hole(d=0.5)
phc.add_layer(d=0.25, eps_b=3.)
assert [z_to_lind(phc, z) for z in (0., 0.5, 0.75)] == [0, 1, 2]
'''),
]
