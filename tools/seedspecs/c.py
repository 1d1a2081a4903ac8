SEEDS = [
dict(id='c19-ll-min', property='C19',
 edits=[('legume/viz.py', "np.square(kpoints[1, :])) / 2 / np.pi / np.sqrt(max(eps_clad))\n", "np.square(kpoints[1, :])) / 2 / np.pi / np.sqrt(eps_clad[0])\n")],
 needs='a slab whose upper cladding has the higher permittivity',
 breaks='The light cone is drawn at the light line of the lower cladding, not at the lower of the two light lines.',
 demo='''
import matplotlib.pyplot as plt
for (l, u) in ((2.25, 1.), (1., 2.25)):
    phc = hole(eps_l=l, eps_u=u)
    g = legume.GuidedModeExp(phc, gmax=1.01)
    k = np.array([[0., 1., 2.], [0., 0.5, 0.5]])
    g.run(kpoints=k, gmode_inds=[0], numeig=2, compute_im=False, verbose=False)
    fig, ax = plt.subplots()
    legume.viz.bands(g, ax=ax)
    v = ax.collections[0].get_paths()[0].vertices
    for i, kk in enumerate(np.hypot(*k)):
        y = min(v[np.abs(v[:, 0] - i) < 1e-9][:, 1])
        assert abs(y - kk / 2 / np.pi / 1.5) < 1e-9, (l, u, i, y)
    plt.close(fig)
'''),
dict(id='c19-yz-phase', property='C19',
 edits=[('legume/viz.py', '''                          1j * x * struct.kpoints[0, kind])
''', '''                          1j * x * struct.kpoints[1, kind])
''')],
 needs='a full (non periodic) field in a yz cross-section away from x = 0, at a wavevector with different components',
 breaks='The Bloch phase of the yz cross-section uses the wrong wavevector component.',
 demo='''
import matplotlib.pyplot as plt
phc = hole()
g = legume.GuidedModeExp(phc, gmax=1.01)
k = np.array([[0.9], [0.3]])
g.run(kpoints=k, gmode_inds=[0], numeig=2, compute_im=False, verbose=False)
f, y, z = g.get_field_yz('H', 0, 0, 0.2, Ny=7, Nz=5)
fig = legume.viz.field(g, 'H', 0, 0, x=0.2, periodic=False, component='z', val='im', N1=7, N2=5, cbar=False, eps=False)
im = fig.axes[0].get_images()[0].get_array()
want = np.imag(f['z'] * np.exp(1j * (0.9 * 0.2 + 0.3 * y)))
assert np.allclose(np.asarray(im), want, atol=1e-10)
'''),
dict(id='c19-structure-mid', property='C19',
 edits=[('legume/viz.py', '''            zpos = (all_layers[indl].z_max + all_layers[indl].z_min) / 2
''', '''            zpos = all_layers[indl].z_max
''')],
 needs='a plot of a structure in which neighbouring layers have different patterns',
 breaks='The panel of each layer shows the permittivity of the layer above.',
 demo='''
import matplotlib.pyplot as plt
phc = hole(r=0.2)
phc.add_layer(d=0.3, eps_b=5.)
phc.add_shape(legume.Circle(eps=2., r=0.4))
legume.viz.structure(phc, Nx=9, Ny=9, cbar=False)
fig = plt.gcf()
x, y = phc.lattice.xy_grid(Nx=9, Ny=9)
for i, ax in enumerate(fig.axes):
    want = phc.layers[i].get_eps(np.meshgrid(x, y))
    assert np.allclose(np.asarray(ax.get_images()[0].get_array()), want), i
'''),
dict(id='c19-kunits', property='C19',
 edits=[('legume/viz.py', '''    mod_delta_k = np.sqrt(np.square(delta_k[0, :]) + np.square(delta_k[1, :]))
''', '''    mod_delta_k = np.abs(np.diff(mod_k))
''')],
 needs='k_units=True and a path with a segment that is not radial (e.g. X-M)',
 breaks='The abscissa advances by the change of |k| instead of the length of the step.',
 demo='''
phc = hole()
path = phc.lattice.bz_path(['G', 'X', 'M', 'G'], [4])
X0, X = legume.viz.calculate_x(path['kpoints'], 3, True)
assert np.allclose(X0[path['indexes']], path['k_indexes']), (X0[path['indexes']], path['k_indexes'])
'''),
dict(id='c19-field-eps', property='C19',
 edits=[('legume/viz.py', '''                np.array(x), grid1, grid2)).squeeze().transpose()
''', '''                grid1, np.array(x), grid2)).squeeze().transpose()
''')],
 needs='a yz cross-section of a field, with the outline of a structure that is not symmetric under exchange of x and y',
 breaks='The permittivity outline drawn over a yz cross-section is that of the xz cross-section.',
 demo='''
import matplotlib.pyplot as plt
import matplotlib.axes
seen = []
orig = matplotlib.axes.Axes.contour
def contour(self, *a, **k):
    seen.append(np.array(a[2]))
    return orig(self, *a, **k)
matplotlib.axes.Axes.contour = contour
phc = hole(x=0.1, y=0.2)
g = legume.GuidedModeExp(phc, gmax=1.01)
g.run(kpoints=np.array([[0.9], [0.3]]), gmode_inds=[0], numeig=2, compute_im=False, verbose=False)
legume.viz.field(g, 'H', 0, 0, x=0.2, component='z', N1=12, N2=8, cbar=False, eps_levels=[5.])
y, z = phc.lattice.xy_grid(Nx=2, Ny=12)[1], phc.z_grid(Nz=8)
want = np.array([[phc.get_eps((np.array([[0.2]]), np.array([[b]]), np.array([[c]]))).item() for b in y] for c in z])
assert np.array_equal(seen[0], want)
'''),
dict(id='c08-eigsh-sort', property='C08',
 edits=[('legume/gme/gme.py', '''                i_sort = bd.argsort(freq1)
                freq = freq1[i_sort]
''', '''                i_sort = bd.argsort(freq2)
                freq = freq1[i_sort]
'''), ('legume/gme/gme.py', '''                                   sigma=(self.eig_sigma * 2 * np.pi)**2 + 1)
''', '''                                   sigma=(self.eig_sigma * 2 * np.pi)**2 + 1)
                freq2, evecs = freq2[::-1], evecs[:, ::-1]
                evecs = evecs[:, bd.argsort(freq2)] if self.numeig > 6 else evecs
''')],
 needs='the iterative solver with more than six requested modes',
 breaks='Eigenvectors of the iterative solver are paired with the wrong frequencies when many modes are requested.',
 demo='''
phc = hole(x=0.1, y=0.05)
F = []
for s in ('eigh', 'eigsh'):
    g = legume.GuidedModeExp(phc, gmax=1.5)
    g.run(kpoints=np.array([[1.1], [0.4]]), gmode_inds=[0, 1], numeig=8, eig_solver=s, compute_im=False, verbose=False)
    f = [g.get_field_xy('H', 0, m, z=0.25, component='z', Nx=5, Ny=5)[0]['z'] for m in range(8)]
    F.append([g.freqs[0], np.abs(f)])
assert np.allclose(F[0][0], F[1][0], atol=1e-6)
assert np.allclose(F[0][1], F[1][1], atol=1e-5)
'''),
dict(id='c09-even-sigma', property='C09', also=['C08'],
 edits=[('legume/gme/gme.py', '''                        bd.abs(freq2 - bd.ones(mat_even.shape[0]))) / 2 / np.pi

                    i_near = find_nearest(get_value(freq1), self.eig_sigma,
                                          self.numeig)
''', '''                        bd.abs(freq2 - bd.ones(mat_even.shape[0]))) / 2 / np.pi

                    i_near = bd.arange(self.numeig)
''')],
 needs="kz_symmetry='even' with a target frequency (eig_sigma) inside the spectrum",
 breaks='The even modes returned are the lowest ones, not those nearest to the target frequency.',
 demo='''
phc = hole()
kw = dict(kpoints=np.array([[1.], [0.]]), angles=np.array([0.]), gmode_inds=[0, 1], compute_im=False, verbose=False)
for s in ('odd', 'even'):
    g = legume.GuidedModeExp(phc, gmax=1.5)
    g.run(kz_symmetry=s, numeig=8, **kw)
    f = g.freqs[0]
    g = legume.GuidedModeExp(phc, gmax=1.5)
    g.run(kz_symmetry=s, numeig=3, eig_sigma=f[4] + 1e-3, **kw)
    want = np.sort(f[np.argsort(np.abs(f - f[4] - 1e-3))[:3]])
    assert np.allclose(g.freqs[0], want, atol=1e-9), (s, g.freqs[0], want)
'''),
dict(id='c09-label-count', property='C09',
 edits=[('legume/gme/gme.py', '''                    symm1 = bd.concatenate((np.full(self.even_counts[ik],
''', '''                    symm1 = bd.concatenate((np.full(self.even_counts[0],
''')],
 needs="kz_symmetry='both' over wavevectors at which the numbers of even and odd basis states differ (e.g. different mirror lines)",
 breaks='Parity labels are shifted at every wavevector whose number of even states differs from that of the first one.',
 demo='''
phc = legume.PhotCryst(legume.Lattice([1., 0.], [0., 1.8]))
phc.add_layer(d=0.5, eps_b=12.)
phc.add_shape(legume.Circle(eps=1., r=0.3))
k = np.array([[1., 0.], [0., 1.]])
ang = np.array([0., 90.])
def run(sl):
    g = legume.GuidedModeExp(phc, gmax=1.5)
    g.run(kpoints=k[:, sl], angles=ang[sl], gmode_inds=[0], numeig=7,
          kz_symmetry='both', compute_im=False, verbose=False)
    return np.array(g.kz_symms)
a = run([0, 1])
b = np.vstack((run([0]), run([1])))
assert np.array_equal(a, b), (a, b)
'''),
dict(id='c10-unbal-thr', property='C10',
 edits=[('legume/gme/gme.py', '''        unbalance_i[np.abs(np.array(freqs_i)) < 1e-15] = 0.5
''', '''        unbalance_i[np.abs(np.array(freqs_i)) < 1e-5] = 0.5
''')],
 needs='a mode with small but non-zero losses (quality factor above 1e4)',
 breaks='The s/p unbalance of high-Q leaky modes is reported as 0.5.',
 demo='''
phc = hole(r=0.02)
g = legume.GuidedModeExp(phc, gmax=1.01)
g.run(kpoints=np.array([[0.2], [0.]]), gmode_inds=[0], numeig=5, verbose=False)
n = 0
for m in range(5):
    if 1e-12 < g.freqs_im[0][m] < 1e-5:
        _, c, _ = g.compute_rad(0, [m])
        te = sum(np.sum(np.abs(c[x][0])**2) for x in ('l_te', 'u_te'))
        tm = sum(np.sum(np.abs(c[x][0])**2) for x in ('l_tm', 'u_tm'))
        assert abs(g.unbalance_sp[0][m] - te / (te + tm)) < 1e-3, (m, g.unbalance_sp[0][m], te / (te + tm))
        n += 1
assert n
'''),
dict(id='c13-stale-grid', property='C13',
 edits=[('legume/gme/gme.py', '''        # Initialize attributes for guided-mode storing
        self.g_array = []
''', '''        # Initialize attributes for guided-mode storing
        self.g_array = [] if self.gmode_compute.lower() == 'exact' else \\
            getattr(self, 'g_array', [])
''')],
 needs='two interpolated runs of the same object whose wavevector ranges differ',
 breaks='The second interpolated run uses the abscissae of the first one.',
 demo='''
phc = hole()
kw = dict(gmode_compute='interp', gmode_npts=200, gmode_inds=[0, 1], numeig=4, compute_im=False, verbose=False)
g = legume.GuidedModeExp(phc, gmax=1.01)
g.run(kpoints=np.array([[0.1], [0.]]), **kw)
g.run(kpoints=np.array([[3.], [1.]]), **kw)
h = legume.GuidedModeExp(phc, gmax=1.01)
h.run(kpoints=np.array([[3.], [1.]]), **kw)
assert np.allclose(g.freqs, h.freqs, atol=1e-12), (g.freqs, h.freqs)
'''),
dict(id='c14-chi-val', property='C14',
 edits=[('legume/gme/gme.py', '''            e_a = self.eps_array if self.gradients == 'exact' \\
                                    else self.eps_array_val
''', '''            e_a = self.eps_array_val
''')],
 needs="an exact gradient with respect to anything that changes the average permittivity of a layer",
 breaks='The derivative of the vertical wavevector with respect to the permittivity is dropped from exact gradients.',
 demo='''
from autograd import grad
legume.set_backend('autograd')
def f(r):
    phc = hole(r=r)
    g = legume.GuidedModeExp(phc, gmax=1.01)
    g.run(kpoints=np.array([[1.], [0.3]]), gmode_inds=[0, 1], numeig=3, compute_im=False, verbose=False)
    return g.freqs[0, 1]
d = grad(f)(0.3)
h = 1e-4
n = (f(0.3 + h) - f(0.3 - h)) / 2 / h
assert abs(d - n) < 1e-4 * abs(n), (d, n)
'''),
dict(id='c14-spdot', property='C14', also=['C09'],
 edits=[('legume/primitives.py', '''        return spmat.T.dot(g)
''', '''        return spmat.dot(g)
''')],
 needs='a gradient through the sparse symmetry separation',
 breaks='The adjoint of the sparse product uses the matrix instead of its transpose.',
 demo='''
from autograd import grad
legume.set_backend('autograd')
def f(r, sp):
    phc = hole(r=r)
    g = legume.GuidedModeExp(phc, gmax=1.5)
    g.run(kpoints=np.array([[1.], [0.]]), angles=np.array([0.]), kz_symmetry='odd', use_sparse=sp,
          gmode_inds=[0, 1], numeig=3, compute_im=False, verbose=False)
    return g.freqs[0, 1]
a, b = grad(f)(0.3, True), grad(f)(0.3, False)
assert abs(a - b) < 1e-6, (a, b)
'''),
dict(id='c04-map-conj', property='C04',
 edits=[('legume/gme/gme.py', '''                (self.T1[lind], self.T2[lind], np.conj(self.T1[lind]),
''', '''                (self.T1[lind], self.T2[lind], self.T1[lind],
''')],
 needs='the permittivity map of a structure without inversion symmetry about the origin, parallelogram truncation',
 breaks='Half of the coefficients used for the real-space permittivity are not conjugated.',
 demo='''
phc = hole(x=0.15, y=0.1)
g = legume.GuidedModeExp(phc, gmax=2.01, truncate_g='tbt')
e, x, y = g.get_eps_xy(z=0.25, Nx=7, Ny=7)
assert np.amax(np.abs(np.imag(e))) < 1e-9, np.amax(np.abs(np.imag(e)))
'''),
dict(id='c03-nsum', property='C03',
 edits=[('legume/phc/lattice.py', '''            count = count + ns[ip]
            inds.append(count)
''', '''            count = count + ns[ip]
            inds.append((ip + 1) * ns[ip])
''')],
 needs='a path with different numbers of steps per segment',
 breaks='The indexes of the path points are wrong when the segments have different numbers of steps.',
 demo='''
p = legume.Lattice('square').bz_path(['G', 'X', 'M'], [2, 4])
assert list(p['indexes']) == [0, 2, 6], p['indexes']
'''),
dict(id='c16-wells-mode', property='C16',
 edits=[('legume/pol/pol.py', '''            [exc_out.eners[kind] for exc_out in self.exc_list])
''', '''            [self.exc_list[0].eners[kind] for exc_out in self.exc_list])
''')],
 needs='two wells with different exciton energies',
 breaks='All wells are given the exciton energies of the first one.',
 demo='''
phc = hole()
for z, E0 in ((0.2, 1.5), (0.3, 1.7)):
    phc.add_qw(z=z, V_shapes=0., a=3e-7, M=1e-31, E0=E0, loss=0., osc_str=[0., 0., 0.])
p = legume.HopfieldPol(phc, gmax=1.01)
p.run(gme_options={'gmode_inds': [0], 'numeig': 4, 'verbose': False}, exc_options={'numeig_ex': 1, 'verbose_ex': False},
      kpoints=np.array([[0.3], [0.1]]), verbose=False)
assert np.amin(np.abs(p.eners[0] - 1.7)) < 1e-3, p.eners
'''),
dict(id='c17-lb-mask', property='C17',
 edits=[('legume/minimize.py', '''            (grad_adam, mopt, vopt) = self._step_adam(grad, mopt, vopt,
                                                      iteration, beta1, beta2)
''', '''            (grad_adam, mopt, vopt) = self._step_adam(
                grad, mopt, vopt, min(iteration, 9), beta1, beta2)
''')],
 needs='more than ten epochs',
 breaks='The bias correction of the Adam step stops after ten epochs.',
 demo='''
from legume.minimize import Minimize
import contextlib, io
def of(p): return ((p - 3.)**2 * np.array([1., 4.])).sum()
m = Minimize(of)
with contextlib.redirect_stdout(io.StringIO()):
    p, l = m.adam(np.array([0., 1.]), Nepochs=16, step_size=0.1)
x = np.array([0., 1.]); mm = 0; v = 0
for t in range(1, 16):
    g = 2 * (x - 3.) * np.array([1., 4.])
    mm = .9 * mm + .1 * g; v = .999 * v + .001 * g**2
    x = x - 0.1 * (mm / (1 - .9**t)) / (np.sqrt(v / (1 - .999**t)) + 1e-8)
assert np.allclose(p, x, atol=1e-10), (p, x)
'''),
dict(id='c20-nearest-tie', property='C20', also=['C08'],
 edits=[('legume/utils.py', '''    idx = np.abs(array - value).argsort()
    return idx[:N]
''', '''    idx = np.argpartition(np.abs(array - value), min(N, len(array) - 1))
    return idx[:N]
''')],
 needs='more than one nearest value requested: their order by distance is lost (only for arrays long enough for the partition to be unsorted)',
 breaks='The nearest values are not returned in the order of their distance.',
 demo='''
from legume.utils import find_nearest
x = np.random.RandomState(3).rand(200)
i = find_nearest(x, 0.5, 50)
assert np.all(np.diff(np.abs(x[i] - 0.5)) >= 0)
'''),
]
