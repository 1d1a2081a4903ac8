SEEDS = [
dict(id='c06-antisym', property='C06',
 edits=[('legume/gme/gme.py', "                    if bd.sum(bd.abs(\n                            T1[mod_G1 > 1e-10])) < 1e-10 or only_gmodes:\n",
         "                    if bd.abs(bd.sum(\n                            T1[mod_G1 > 1e-10])) < 1e-10 or only_gmodes:\n")],
 needs='a layer whose contrast is odd under inversion (equal shapes of opposite contrast at opposite points)',
 breaks='A modulated layer whose coefficients add up to zero is treated as homogeneous.',
 demo='''
f = []
for x, y in ((0., 0.), (.07, .04)):
    phc = legume.PhotCryst(legume.Lattice('square'))
    phc.add_layer(d=.3, eps_b=6.)
    phc.add_shape([legume.Circle(eps=9., x_cent=.25 + x, y_cent=y, r=.2),
                   legume.Circle(eps=3., x_cent=-.25 + x, y_cent=y, r=.2)])
    g = legume.GuidedModeExp(phc, gmax=1.2)
    g.run(kpoints=np.array([[np.pi], [0.]]), gmode_inds=[0, 1], numeig=5, compute_im=False, verbose=False)
    f.append(g.freqs)
assert np.max(np.abs(f[0] - f[1])) < 1e-8, f
'''),
dict(id='c06-weak', property='C06',
 edits=[('legume/gme/gme.py', "                            T1[mod_G1 > 1e-10])) < 1e-10 or only_gmodes:\n",
         "                            T1[mod_G1 > 1e-10])) < 1e-3 * bd.abs(T1[index_G0]) or only_gmodes:\n")],
 needs='a layer with a very weak modulation',
 breaks='Weak modulations are ignored altogether.',
 demo='''
phc = hole(eps_b=9., r=.25, d=.3, eps=9.0006)
f = []
for tr in ('abs', 'tbt'):
    g = legume.GuidedModeExp(phc, gmax=1.2, truncate_g=tr)
    g.run(kpoints=np.array([[np.pi], [0.]]), gmode_inds=[0, 1], numeig=5, compute_im=False, verbose=False)
    f.append(g.freqs)
d = np.abs(f[0] - f[1])[0, :4]
assert np.max(d) < 1e-8, d
'''),
dict(id='c08-interp-kmax', property='C08',
 edits=[('legume/gme/gme.py', "            kmax = np.amax(\n                np.sqrt(np.square(kpoints[0, :]) + np.square(kpoints[1, :])))\n",
         "            kmax = np.amax(np.abs(kpoints))\n")],
 needs='interpolated guided modes at a wavevector along a diagonal, with a basis vector in the same direction',
 breaks='The interpolation grid ends below the largest wavenumber of the basis.',
 demo='''
phc = hole(r=.2, d=.5)
f = []
for m in ('exact', 'interp'):
    g = legume.GuidedModeExp(phc, gmax=1.5)
    g.run(kpoints=np.array([[3.], [3.]]), gmode_inds=[0, 1], numeig=18, gmode_compute=m, gmode_npts=3000, compute_im=False, verbose=False)
    f.append(g.freqs)
assert np.max(np.abs(f[0] - f[1])) < 1e-4, np.max(np.abs(f[0] - f[1]))
'''),
dict(id='c10-upper-phase', property='C10',
 edits=[('legume/gme/gme.py', "                    rad_c['te'][clad_ind] += -1j * bd.sum(rad, axis=0)\n",
         "                    rad_c['te'][clad_ind] += (1j if clad_ind else -1j) * bd.sum(rad, axis=0)\n")],
 needs='reading the relative phase of the s and p couplings to the upper cladding',
 breaks='The s coupling to the upper cladding has the wrong sign relative to the p coupling.',
 demo='''
# a mirror-symmetric slab: the couplings up and down are related mode by mode
# by a common sign for s and the opposite (or same) sign for p
phc = hole(r=.2, d=.5, x=.1, y=.05)
def pair(x, y):
    g = legume.GuidedModeExp(hole(r=.2, d=.5, x=x, y=y), gmax=1.01)
    g.run(kpoints=np.array([[.3], [.2]]), gmode_inds=[0, 1, 2, 3], numeig=10, verbose=False)
    return g
g = pair(.1, .05)
c = g.rad_coup
# the relative phase of s and p, up against down, is the same sign for every mode of one parity
r = []
for m in range(10):
    if len(c['l_te'][0][m]) == 0:
        continue
    l, u = [c[k][0][m][0] for k in ('l_te', 'l_tm')], [c[k][0][m][0] for k in ('u_te', 'u_tm')]
    if min(map(abs, l + u)) < 1e-6:
        continue
    r.append(np.real(u[0] / l[0] / (u[1] / l[1])))
assert len(r) and np.allclose(r, -1., atol=1e-6), r
'''),
]
