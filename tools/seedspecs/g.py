SEEDS = [
dict(id='c10-gvec-u', property='C10',
 edits=[('legume/gme/gme.py', "            rad_gvec['u'].append(self.gvec[:, indmoder[1]])\n",
         "            rad_gvec['u'].append(self.gvec[:, indmoder[0]])\n")],
 needs='claddings of different permittivity, at a frequency where they have different numbers of open channels',
 breaks='The vectors reported for the couplings to the upper cladding are those of the lower one.',
 demo='''
g = legume.GuidedModeExp(hole(eps_l=4., eps_u=1.), gmax=1.2)
g.run(kpoints=np.array([[2.5], [.3]]), gmode_inds=[0, 1], numeig=8, verbose=False)
for m in range(8):
    for c in 'lu':
        assert g.rad_gvec[c][0][m].shape[1] == g.rad_coup[c + '_te'][0][m].size, (m, c)
'''),
dict(id='c19-shapes-pad', property='C19',
 edits=[('legume/viz.py', "        xy_p = [a1, -a1, a2, -a2]\n", "        xy_p = [a1, -a1, a2, a1 - a2]\n")],
 needs='looking for the image of a shape one primitive vector below',
 breaks='An image of the shapes is drawn at the wrong place.',
 demo='''
import matplotlib.pyplot as plt
phc = hole(lattice=legume.Lattice([1., 0.], [.3, 1.1]))
fig, ax = plt.subplots()
legume.viz.shapes(phc.layers[0], ax=ax)
c = {tuple(np.round([(l.get_xdata().min() + l.get_xdata().max()) / 2, (l.get_ydata().min() + l.get_ydata().max()) / 2], 2) + 0.) for l in ax.lines}
assert c == {(0., 0.), (1., 0.), (-1., 0.), (.3, 1.1), (-.3, -1.1)}, c
'''),
dict(id='c20-vjp-step', property='C20',
 edits=[('legume/utils.py', "            step = steps[ia]\n", "            step = steps[0]\n"),
        ('legume/utils.py', "                    dfn_darg = (fn(*args_new) - fn_out) / step\n", "                    dfn_darg = (fn(*args_new) - fn_out) / steps[ia]\n")],
 needs='two differentiated arguments with different steps',
 breaks='The increment of the second argument is not the one divided by.',
 demo='''
from legume.utils import vjp_maker_num
f = lambda x, y: np.sum(x * x) + np.sum(y**3)
a, b = vjp_maker_num(f, [0, 1], [1e-4, 1e-5])
x, y = np.array([.3, .7]), np.array([1., 2., -1.])
v = b(f(x, y), x, y)(1.)
assert np.max(np.abs(v - 3 * y**2)) < 1e-2, v
'''),
]
