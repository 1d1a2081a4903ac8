SEEDS = [
dict(id='c07-rev-thickness', property='C07', also=['C10'],
 edits=[('legume/gme/slab_modes.py', '''            S_mat, T_mat = S_T_matrices_TM(omega, g_val, eps_array[::-1],
                                           d_array[::-1])
''', '''            S_mat, T_mat = S_T_matrices_TM(omega, g_val, eps_array[::-1],
                                           d_array)
''')],
 needs='losses by p-polarised emission into the lower cladding of a multilayer with unequal thicknesses',
 breaks='Radiation modes of the lower cladding are computed with the thicknesses in the wrong order.',
 demo='''
def run(dn):
    lay = [(0.2, 5.), (0.45, 12.)]
    phc = legume.PhotCryst(legume.Lattice('square'), eps_l=2. if not dn else 1., eps_u=1. if not dn else 2.)
    for d, e in (lay[::-1] if dn else lay):
        phc.add_layer(d=d, eps_b=e)
        phc.add_shape(legume.Circle(eps=1., r=0.25))
    g = legume.GuidedModeExp(phc, gmax=1.01)
    g.run(kpoints=np.array([[0.3], [0.2]]), gmode_inds=[1, 3], numeig=5, verbose=False)
    return g.freqs_im[0]
a, b = run(False), run(True)
assert np.allclose(a, b, rtol=1e-5, atol=1e-12), (a, b)
'''),
dict(id='c09-sparse-conj', property='C09',
 edits=[('legume/gme/gme.py', '''        separ_mat_sparse = bd.spdot(v_sigma_perm.T, mat.T)
''', '''        separ_mat_sparse = bd.spdot(v_sigma_perm.T, mat)
''')],
 needs='sparse separation of a structure with a mirror plane but without inversion symmetry (complex Hamiltonian); only the fields change',
 breaks='Sparse separation diagonalises the complex conjugate of the Hamiltonian, so eigenvectors and fields are conjugated.',
 demo='''
phc = hole()
phc.add_shape(legume.Poly(eps=5., x_edges=[-.45, -.2, -.45], y_edges=[-.2, 0., .2]))
kw = dict(kpoints=np.array([[1.], [0.]]), angles=np.array([0.]), gmode_inds=[0, 1], numeig=4,
          kz_symmetry='both', compute_im=False, verbose=False)
F = []
for s in (False, True):
    g = legume.GuidedModeExp(phc, gmax=1.01)
    g.run(use_sparse=s, **kw)
    f, _, _ = g.get_field_xy('H', 0, 0, z=0.25, Nx=9, Ny=9)
    F.append(sum(abs(f[c])**2 for c in 'xyz'))
assert np.allclose(F[0], F[1], rtol=1e-6, atol=1e-9)
'''),
dict(id='c09-hex-angles', property='C09',
 edits=[('legume/gme/gme.py', "        self._hex_an = np.arange(-360, 390, 30)\n", "        self._hex_an = np.arange(-360, 390, 60)\n")],
 needs='a hexagonal lattice and a wavevector along the 30-degree family of mirror lines (Gamma-K directions)',
 breaks='High-symmetry wavevectors of the hexagonal lattice are refused.',
 demo='''
phc = hole(lattice='hexagonal')
k = phc.lattice.bz_path(['G', 'M'], [2])
g = legume.GuidedModeExp(phc, gmax=2.01)
g.run(kpoints=k['kpoints'][:, 1:2], angles=k['angles'][1:2], gmode_inds=[0, 1], numeig=3, kz_symmetry='odd', compute_im=False, verbose=False)
k = phc.lattice.bz_path(['G', 'K'], [2])
g.run(kpoints=k['kpoints'][:, 1:2], angles=k['angles'][1:2], gmode_inds=[0, 1], numeig=3, kz_symmetry='odd', compute_im=False, verbose=False)
'''),
dict(id='c11-hex-norm', property='C11',
 edits=[('legume/gme/gme.py', '''                                    Hz/bd.sqrt(self.phc.lattice.ec_area)
''', '''                                    Hz
''')],
 needs='a lattice whose cell area is not one (e.g. hexagonal)',
 breaks='Hz is not normalised like Hx and Hy, so the magnetic field is not divergence-free.',
 demo='''
phc = hole(lattice='hexagonal')
g = legume.GuidedModeExp(phc, gmax=2.01)
k = np.array([[0.3], [0.2]])
g.run(kpoints=k, gmode_inds=[0], numeig=3, compute_im=False, verbose=False)
h = 1e-4
H = [g.ft_field_xy('H', 0, 1, z) for z in (0.2 - h, 0.2, 0.2 + h)]
kk = g.gvec + k
div = 1j * kk[0] * H[1][0] + 1j * kk[1] * H[1][1] + (H[2][2] - H[0][2]) / 2 / h
assert np.amax(abs(div)) < 1e-4, np.amax(abs(div))
'''),
dict(id='c11-yz-grid', property='C11',
 edits=[('legume/gme/gme.py', '''            ygrid = self.phc.lattice.xy_grid(Nx=2, Ny=Ny)[1]
''', '''            ygrid = self.phc.lattice.xy_grid(Nx=Ny, Ny=2)[0]
''')],
 needs='a vertical yz cross-section on the default grid of a lattice with different extents along x and y',
 breaks='The default y grid of the cross-section spans the extent of the cell in x.',
 demo='''
phc = hole(lattice=legume.Lattice([1., 0.], [0., 1.7]))
g = legume.GuidedModeExp(phc, gmax=1.01)
g.run(kpoints=np.array([[0.3], [0.2]]), gmode_inds=[0], numeig=2, compute_im=False, verbose=False)
f, y, z = g.get_field_yz('H', 0, 0, 0.1, Ny=5, Nz=3)
assert abs(y[-1] - y[0]) > 1.2, y
'''),
dict(id='c12-eps-conj', property='C12', also=['C04'],
 edits=[('legume/pwe/pwe.py', '''            (self.T1, self.T2, np.conj(self.T1), np.conj(self.T2)))
''', '''            (self.T1, self.T2, self.T1, self.T2))
''')],
 needs='a 2D crystal without inversion symmetry about the origin',
 breaks='The permittivity map of the 2D solver is wrong for shapes away from the centre of the cell.',
 demo='''
lay = legume.ShapesLayer(legume.Lattice('square'), eps_b=2.)
lay.add_shape(legume.Circle(eps=8., x_cent=0.2, y_cent=0.1, r=0.25))
p = legume.PlaneWaveExp(lay, gmax=5)
e, x, y = p.get_eps_xy(Nx=21, Ny=21)
i = np.unravel_index(np.argmax(e.real), e.shape)
assert np.amax(abs(e.imag)) < 1e-9
j0, i0 = np.argmin(abs(y - 0.1)), np.argmin(abs(x - 0.2))
assert abs(e[j0, i0] - 8) < 1., e[j0, i0]
'''),
dict(id='c12-gamma-h', property='C12',
 edits=[('legume/pwe/pwe.py', '''        gkx = self.gvec[0, :] + k[0] + 1e-10
''', '''        gkx = self.gvec[0, :] + k[0]
''')],
 needs='fields requested at Gamma (or any wavevector that coincides with a reciprocal vector)',
 breaks='Fields at Gamma are not-a-number.',
 demo='''
lay = legume.ShapesLayer(legume.Lattice('square'), eps_b=2.)
lay.add_shape(legume.Circle(eps=8., r=0.25))
p = legume.PlaneWaveExp(lay, gmax=2)
p.run(kpoints=np.array([[0.], [0.]]), pol='tm', numeig=4)
f, _, _ = p.get_field_xy('H', 0, 2, component='xy', Nx=5, Ny=5)
assert np.all(np.isfinite(f['x'])) and np.all(np.isfinite(f['y']))
'''),
dict(id='c12-toep-block', property='C12', also=['C04', 'C20'],
 edits=[('legume/pwe/pwe.py', '''            G2[:, ind1*n2max:(ind1+1)*n2max] = - self.gvec[:, [ind1*n2max]] + \\
                            self.gvec[:, range(n2max)]
''', '''            G2[:, ind1*n2max:(ind1+1)*n2max] = - self.gvec[:, [ind1*n2max]] + \\
                            self.gvec[:, range(n2max)][:, ::1 if ind1 == 0 else -1]
''')],
 needs='a 2D crystal with oblique or off-centre content (coefficients at (n1, n2) and (n1, -n2) differ)',
 breaks='Off-diagonal blocks of the permittivity matrix hold coefficients of the wrong vectors.',
 demo='''
lay = legume.ShapesLayer(legume.Lattice('square'), eps_b=2.)
lay.add_shape(legume.Circle(eps=8., x_cent=0.1, y_cent=0.2, r=0.25))
p = legume.PlaneWaveExp(lay, gmax=2)
p.run(kpoints=np.array([[0.3], [0.1]]), pol='tm', numeig=4)
G = p.gvec
n = G.shape[1]
dG = (G[:, :, None] - G[:, None, :]).reshape(2, -1)
eps = lay.compute_ft(dG).reshape(n, n)
assert np.allclose(np.linalg.inv(eps), p.eps_inv_mat, atol=1e-8)
'''),
dict(id='c13-stale-include', property='C13',
 edits=[('legume/gme/gme.py', '''        self.gmode_include = []

        #Check''', '''        self.gmode_include = getattr(self, 'gmode_include', [])

        #Check''')],
 needs='a second run of the same object with other guided-mode indexes, followed by losses or fields',
 breaks='Losses and fields of a later run use the list of guided modes of the first one.',
 demo='''
k = np.array([[0.4], [0.3]])
a = legume.GuidedModeExp(hole(), gmax=1.01)
a.run(kpoints=k, gmode_inds=[0], numeig=3, verbose=False)
a.run(kpoints=k, gmode_inds=[1], numeig=3, verbose=False)
b = legume.GuidedModeExp(hole(), gmax=1.01)
b.run(kpoints=k, gmode_inds=[1], numeig=3, verbose=False)
assert np.allclose(a.freqs_im, b.freqs_im, rtol=1e-6, atol=1e-12), (a.freqs_im, b.freqs_im)
'''),
dict(id='c14-toeplitz-vjp', property='C14',
 edits=[('legume/primitives.py', '''                            np.conj(v[ind2*p+indp:(ind2+1)*p, ind1*p + indp])
''', '''                            v[ind2*p+indp:(ind2+1)*p, ind1*p + indp]
''')],
 needs='a gradient through the parallelogram expansion of a structure with complex coefficients',
 breaks='The adjoint of the Toeplitz assembly lacks a conjugation in the lower blocks.',
 demo='''
legume.set_backend('autograd')
from autograd import grad
import autograd.numpy as npa
def f(x):
    phc = legume.PhotCryst(legume.Lattice('square'))
    phc.add_layer(d=0.5, eps_b=12.)
    phc.add_shape(legume.Circle(x_cent=x, y_cent=0.11, r=0.2))
    phc.add_shape(legume.Circle(eps=4., x_cent=-0.25, y_cent=-0.3, r=0.15))
    g = legume.GuidedModeExp(phc, gmax=1.01, truncate_g='tbt')
    g.run(kpoints=np.array([[0.6], [0.4]]), gmode_inds=[0, 1], numeig=4, compute_im=False, verbose=False)
    return npa.sum(g.freqs[0][1:])
x0, h = 0.17, 1e-5
num = (f(x0 + h) - f(x0 - h)) / 2 / h
an = grad(f)(x0)
assert abs(num - an) < 1e-5 * (1 + abs(num)), (num, an)
'''),
dict(id='c15-pot-conj', property='C15',
 edits=[('legume/exc/exc.py', '''                (self.T1, self.T2, bd.conj(self.T1), bd.conj(self.T2)))
''', '''                (self.T1, self.T2, self.T1, self.T2))
''')],
 needs='parallelogram truncation and a potential without inversion symmetry about the origin',
 breaks='The potential map is that of a different potential.',
 demo='''
phc = hole(r=0.2, x=0.2, y=0.1)
x = legume.ExcitonSchroedEq(phc, z=0.25, V_shapes=0.05, a=400e-9, M=1e-31, E0=1.5, loss=0., osc_str=[1e17, 0, 0], gmax=3.01, truncate_g='tbt')
v, xg, yg = x.get_pot_xy(Nx=21, Ny=21)
assert np.amax(abs(np.imag(v))) < 1e-9
i, j = np.argmin(abs(xg - 0.2)), np.argmin(abs(yg - 0.1))
assert abs(v[j, i] - 0.05) < 0.015, v[j, i]
'''),
dict(id='c16-wavef-conj', property='C16',
 edits=[('legume/pol/pol.py', '''                    bd.conj(W_comp))
''', '''                    W_comp)
''')],
 needs='complex exciton wavefunctions (potential without inversion symmetry)',
 breaks='The light-matter overlap misses a conjugation of the exciton wavefunction.',
 demo='''
def run(x, y):
    phc = hole(r=0.2, x=x, y=y)
    phc.add_shape(legume.Circle(eps=6., x_cent=x + 0.3, y_cent=y + 0.1, r=0.1))
    phc.add_qw(z=0.25, V_shapes=0.1, a=400e-9, M=1e-35, E0=0.8, loss=1e-4, osc_str=[3e19, 3e19, 0])
    p = legume.HopfieldPol(phc, gmax=1.01)
    p.run(gme_options=dict(gmode_inds=[0], numeig=5, verbose=False), exc_options=dict(numeig_ex=5, verbose_ex=False),
          kpoints=np.array([[0.2], [0.1]]), verbose=False)
    return p.eners[0]
a, b = run(0., 0.), run(0.23, -0.31)
assert np.allclose(a, b, atol=1e-6), a - b
'''),
dict(id='c17-pass-order', property='C17',
 edits=[('legume/minimize.py', "            arglist.append(self)\n", "            arglist.insert(0, self)\n")],
 needs='pass_self=True together with extra arguments',
 breaks='The optimiser is passed before the extra arguments instead of after them.',
 demo='''
import autograd.numpy as npa
from legume.minimize import Minimize
seen = []
def of(p, a, b, opt):
    seen.append((a, b, type(opt).__name__))
    return npa.sum(p**2)
Minimize(of).adam(np.array([1., 2.]), Nepochs=2, args=(1, 'x'), pass_self=True)
assert seen[0] == (1, 'x', 'Minimize'), seen
'''),
dict(id='c17-vopt-bias', property='C17',
 edits=[('legume/minimize.py', "        vopt_t = vopt / (1 - beta2**(iteration + 1))\n", "        vopt_t = vopt / (1 - beta2**max(iteration, 1))\n")],
 needs='more than one epoch (the first step is unaffected)',
 breaks='The bias correction of the second moment lags by one epoch.',
 demo='''
import autograd.numpy as npa
from legume.minimize import Minimize
of = lambda p: npa.sum((p - 3)**2 * np.array([1., 2.]))
p, h = Minimize(of).adam(np.array([0., 1.]), Nepochs=4, step_size=0.1)
q = np.array([0., 1.]); m = v = 0
for t in range(1, 4):
    g = 2 * (q - 3) * np.array([1., 2.])
    m = 0.9 * m + 0.1 * g; v = 0.999 * v + 0.001 * g**2
    q = q - 0.1 * (m / (1 - 0.9**t)) / (np.sqrt(v / (1 - 0.999**t)) + 1e-8)
assert np.allclose(p, q, atol=1e-9), (p, q)
'''),
dict(id='c18-square-corners', property='C18',
 edits=[('legume/gds.py', "                    for (x, y) in zip(shape.x_edges[:-1], shape.y_edges[:-1])\n", "                    for (x, y) in zip(shape.x_edges[:-2], shape.y_edges[:-2])\n")],
 needs='a polygon given without a repeated closing vertex',
 breaks='The last vertex of polygons is dropped from the mask.',
 demo='''
import gdspy
phc = legume.PhotCryst(legume.Lattice('square'))
phc.add_layer(d=0.5, eps_b=12.)
phc.add_shape(legume.Square(eps=1., a=0.4))
fn = os.environ['SCRATCH'] + '/x.gds'
legume.gds.generate_gds(phc, fn)
lib = gdspy.GdsLibrary(infile=fn)
pol = lib.top_level()[0].polygons[0].polygons[0]
assert abs(gdspy.Polygon(pol).area() - 0.16) < 1e-6
'''),
dict(id='c20-star-22', property='C20',
 edits=[('legume/utils.py', "    SAB_22 = SB_22 + SB_21 * F * SA_22 * SB_12\n", "    SAB_22 = SB_22 + SB_21 * D * SA_11 * SB_12\n")],
 needs='asymmetric scattering matrices (SA_11 != SA_22)',
 breaks='The star product returns the wrong reflection from the second side.',
 demo='''
from legume.utils import RedhefferStar
A = np.array([[0.1, 0.7], [0.6, 0.3]]); B = np.array([[0.2, 0.5], [0.4, -0.1]])
C = RedhefferStar(A, B)
assert abs(C[1, 1] - (B[1, 1] + B[1, 0] * A[1, 1] * B[0, 1] / (1 - A[1, 1] * B[0, 0]))) < 1e-12
'''),
dict(id='c20-ftinv-round', property='C20', also=['C11', 'C04'],
 edits=[('legume/utils.py', "    (g_unique, ind_unique) = np.unique(gvec, return_index=True, axis=1)\n",
 "    (g_unique, ind_unique) = np.unique(np.round(gvec, 1), return_index=True, axis=1)\n")],
 needs='reciprocal vectors closer together than the rounding (large supercells)',
 breaks='Distinct Fourier components of large supercells are merged.',
 demo='''
from legume.utils import ftinv
g = np.array([[0., 0.04, 1.], [0., 0., 0.]])
x, y = np.linspace(0, 9, 5), np.array([0., 1.])
f = ftinv(np.array([1., 2., 3j]), g, x, y)
assert np.allclose(f[0], 1 + 2 * np.exp(0.04j * x) + 3j * np.exp(1j * x))
'''),
]
