SEEDS = [
dict(id='c16-d-abs', property='C16',
 edits=[('legume/pol/pol.py', "                    bd.real(exc.eners[kind, :]))\n", "                    bd.abs(exc.eners[kind, :]))\n")],
 needs='excitons with a large non-radiative loss',
 breaks='The diamagnetic term of the Hopfield matrix is divided by the modulus of the complex exciton energy.',
 demo='''
import legume.constants as cs
phc = hole(eps_b=12., d=0.5, r=0.2)
phc.add_qw(z=0.2, V_shapes=0., a=400e-9, M=0.2 * cs.m_e, E0=1.2, loss=0.6, osc_str=np.array([5e19, 5e19, 0.]))
h = legume.HopfieldPol(phc, gmax=1.01)
h.run(gme_options=dict(gmode_inds=[0], numeig=2, verbose=False), exc_options=dict(numeig_ex=2, verbose_ex=False),
      kpoints=np.array([[.4], [.3]]), verbose=False)
C = []
M = h.mat
N = 2
Cm = 1j * M[:N, N:2 * N]
D = -M[:N, 4:6] / 2
E = np.real(h.exc_list[0].eners[0])
want = (Cm / E) @ Cm.conj().T
assert np.allclose(D, want, rtol=1e-9, atol=1e-15), (D, want)
'''),
dict(id='c02-qw-and', property='C02',
 edits=[('legume/phc/phc.py', "if z <= self.claddings[0].z_max or z >= self.claddings[1].z_min:", "if z <= self.claddings[0].z_max or z >= self.layers[0].d + self.layers[-1].z_min:")],
 needs='a quantum well close to the top of a structure whose last layer has a different thickness from the first one',
 breaks='The upper limit for quantum wells uses the thickness of the first layer, so wells in the upper cladding are accepted (or valid ones refused).',
 demo='''
phc = legume.PhotCryst(legume.Lattice('square'))
phc.add_layer(d=0.5, eps_b=12.)
phc.add_layer(d=0.2, eps_b=4.)
try:
    phc.add_qw(z=0.9, V_shapes=0., a=4e-7, M=1e-31, E0=1., loss=0., osc_str=[0, 0, 0])
except ValueError:
    pass
else:
    raise SystemExit('a well in the cladding was accepted')
assert phc.qws == []
'''),
dict(id='c18-raster-unit', property='C18',
 edits=[('legume/gds.py', "        boundary = gdspy.Polygon(points, layer=0, datatype=1)\n        cell.add(boundary)\n\n    gdspy.write_gds(filename, unit=unit)", "        boundary = gdspy.Polygon(points, layer=0, datatype=1)\n        cell.add(boundary)\n\n    gdspy.write_gds(filename)")],
 needs='a raster exported in a unit other than the default',
 breaks='Rasters are always exported in micrometres.',
 demo='''
import gdspy
f = os.path.join(os.environ['SCRATCH'], 'o.gds')
r = np.zeros((8, 8)); r[2:6, 2:5] = 1
legume.gds.generate_gds_raster(legume.Lattice('square'), r, f, unit=1e-9)
assert abs(gdspy.get_gds_units(f)[0] / 1e-9 - 1) < 1e-6, gdspy.get_gds_units(f)
'''),
dict(id='c10-minds', property='C10',
 edits=[('legume/gme/gme.py', "            evec = eigvecs[kind][:, im]\n            # Reciprocal vedctors", "            evec = eigvecs[kind][:, im - minds[0]]\n            # Reciprocal vedctors")],
 needs='losses requested for a list of modes which does not start at the first one',
 breaks='The losses of single modes are computed with the eigenvector of another mode.',
 demo='''
phc = hole(r=.2)
g = legume.GuidedModeExp(phc, gmax=2.01)
g.run(kpoints=np.array([[.3], [.2]]), gmode_inds=[0, 1], numeig=6, compute_im=True, verbose=False)
for m in ([2], [4, 3], [0, 5]):
    (im, c, v) = g.compute_rad(0, m)
    assert np.allclose(im, g.freqs_im[0, m], rtol=1e-8, atol=1e-14), m
'''),
dict(id='c01-fourier-b2', property='C01',
 edits=[('legume/phc/shapes.py', "R_phi = R_phi + bn * bd.sin((n + 1) * phis)", "R_phi = R_phi + bn * bd.sin((2 * n + 1) * phis)")],
 needs='a Fourier shape with at least two sine coefficients',
 breaks='The second and later sine coefficients belong to the wrong harmonics.',
 demo='''
s = legume.FourierShape(eps=2., f_as=np.array([.6]), f_bs=np.array([0., .08]), npts=400)
phi = np.linspace(0, 2 * np.pi, 401)
want = .3 + .08 * np.sin(2 * phi)
R = np.hypot(s.x_edges[:401], s.y_edges[:401])
assert np.allclose(R, want), np.abs(R - want).max()
'''),
dict(id='c12-nxny', property='C12',
 edits=[('legume/pwe/pwe.py', "        (xgrid, ygrid) = self.layer.lattice.xy_grid(Nx=Nx, Ny=Ny)\n\n        # Get the field fourier", "        (xgrid, ygrid) = self.layer.lattice.xy_grid(Nx=Ny, Ny=Nx)\n\n        # Get the field fourier")],
 needs='a field map with a different number of points along x and y',
 breaks='The numbers of points along x and y are exchanged.',
 demo='''
lay = legume.ShapesLayer(legume.Lattice('square'), eps_b=4.)
lay.add_shape(legume.Circle(eps=1., r=.2))
p = legume.PlaneWaveExp(lay, gmax=1.)
p.run(kpoints=np.array([[.3], [.2]]), pol='te', numeig=2)
(f, x, y) = p.get_field_xy('H', 0, 0, Nx=5, Ny=8)
assert f['z'].shape == (8, 5) and x.size == 5 and y.size == 8, (f['z'].shape, x.size, y.size)
'''),
dict(id='c09-square-angles', property='C09',
 edits=[('legume/gme/gme.py', "self._square_an = np.arange(-360, 405, 45)", "self._square_an = np.arange(-180, 225, 45)")],
 needs='a square lattice and a symmetric direction given by an angle beyond 180 degrees',
 breaks='Valid directions such as 225 or 270 degrees are refused.',
 demo='''
phc = hole()
out = []
for ang in (-90., 270.):
    g = legume.GuidedModeExp(phc, gmax=1.01)
    g.run(kpoints=np.array([[0.], [-1.]]), angles=np.array([ang]), kz_symmetry='both', gmode_inds=[0, 1], numeig=4, compute_im=False, verbose=False)
    out.append(np.array(g.freqs))
assert np.allclose(out[0], out[1])
'''),
dict(id='c19-pot-clim', property='C19',
 edits=[('legume/viz.py', "    eps_max = np.abs(struct.V_shapes)\n", "    eps_max = struct.V_shapes\n")],
 needs='the plot of an attractive exciton potential',
 breaks='The colour scale of an attractive potential is inverted.',
 demo='''
import matplotlib.pyplot as plt
import legume.constants as cs
phc = hole(r=0.2)
e = legume.ExcitonSchroedEq(phc, z=0.2, V_shapes=-.05, a=4e-7, M=0.2 * cs.m_e, E0=1.4, loss=0., gmax=2.01)
legume.viz.pot_ft(e, Nx=7, Ny=7, cbar=False)
lo, hi = plt.gcf().axes[0].get_images()[0].get_clim()
assert lo < hi, (lo, hi)
'''),
dict(id='c19-wavef-n', property='C19',
 edits=[('legume/viz.py', "(fi, grid1, grid2) = struct.get_wavef_xy(kind, mind, Nx=N1, Ny=N2)", "(fi, grid1, grid2) = struct.get_wavef_xy(kind, mind, Nx=N2, Ny=N1)")],
 needs='a wavefunction plot with a different number of points in the two directions',
 breaks='The numbers of points along x and y are exchanged.',
 demo='''
import matplotlib.pyplot as plt
import legume.constants as cs
phc = hole(r=0.2)
e = legume.ExcitonSchroedEq(phc, z=0.2, V_shapes=.05, a=4e-7, M=0.2 * cs.m_e, E0=1.4, loss=0., gmax=1.01)
e.run(kpoints=np.array([[.3], [.1]]), numeig_ex=2, verbose_ex=False)
fig = legume.viz.wavef(e, 0, 1, N1=5, N2=7, cbar=False)
im = np.asarray(fig.axes[0].get_images()[0].get_array())
assert im.shape == (7, 5), im.shape
'''),
dict(id='c13-gmode-arg', property='C13',
 edits=[('legume/gme/gme.py', "                value = np.array(value)\n", "                value = np.asarray(value)\n                value.sort()\n")],
 needs='guided-mode indexes passed as an unsorted numpy array',
 breaks='The array of guided-mode indexes passed by the caller is sorted in place.',
 demo='''
phc = hole()
inds = np.array([2, 0, 1])
g = legume.GuidedModeExp(phc, gmax=1.01)
g.run(kpoints=np.array([[.3], [.2]]), gmode_inds=inds, numeig=2, compute_im=False, verbose=False)
assert list(inds) == [2, 0, 1], inds
'''),
]
