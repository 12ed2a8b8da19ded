from plantlib import *
import sys
B=[]
def b(*a,**k): B.append((a,k))
PF='_numba/posterior_score_fcts.py'; LO='_numba/lom_outputs.py'; LF='_numba/lom_outputs_fuzzy.py'; MU='_numba/matrix_updates_numba.py'; LU='_numba/lambda_updates_numba.py'; MM='_numba/max_machine_sampler.py'
AU='auxiliary_functions.py'; MA='machine.py'; EX='experiments.py'; MW='matrix_update_wrappers.py'

b('c24-plot-coding','C24',[(AU,("""    if np.any(mat < 0):
""",2),"""    if -1 in np.unique(mat):
""")],
"a matrix of posterior means without an entry that is exactly -1","means are drawn as if they were probabilities","""
import matplotlib
matplotlib.use('Agg')
fig, ax = quiet(aux.plot_matrix, np.array([[-.5, .5], [.25, 1.]]))
assert np.allclose(ax.images[0].get_array(), [[.25, .75], [.625, 1.]])
""")
b('c24-fixed-reported','C24',[(MA,"                      '\\t--\\t'.join([x.print_value() for x in lbdas]),\n                      end='')\n\n        # some","                      '\\t--\\t'.join([x.print_value() for x in self.lbdas]),\n                      end='')\n\n        # some")],
"a machine with a fixed and a free dispersion","the progress reports of the sampling phase list dispersions that are not sampled","""
rng = np.random.default_rng(0)
np.random.seed(0)
m = lom.Machine()
a, c = [quiet(m.add_layer, latent_size=1, child=m.add_matrix(pm(rng, 4, 4), fixed=True), model='OR-AND') for _ in range(2)]
a.lbda.fixed = True
a.lbda.val = 2.
o = io.StringIO()
with contextlib.redirect_stdout(o):
    m.infer(burn_in_min=0, burn_in_max=0, no_samples=1, print_step=1)
last = [l for l in o.getvalue().replace('\\r', '\\n').splitlines() if 'iteration' in l and ':' in l][-1]
assert last.count('.') == 2 + 0 or last.count('--') == 0, last
""")
b('c24-residual','C24',[(MA,"                              for x in self.val])\n        return","                              for x in self.val[:self.layer.size]])\n        return")],
"a layer with the MAX-AND model","the residual dispersion is left out of the reports","""
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 4, 4), 2, 'MAX-AND')
assert len(lr.lbda.print_value().split()) == 3
""")
b('c25-index-at-end','C25',[(MA,"""        for mat in mats:
            mat.trace_index = 0
        for lbda in lbdas:
            if lbda is not None:
                lbda.trace_index = 0

        # burn in""","        # burn in"),(MA,"        print('\\nfinished.')","        for x in mats + lbdas:\n            x.trace_index = 0\n\n        print('\\nfinished.')")],
"an inference that is interrupted while samples are drawn, followed by another inference","the next inference writes beyond its traces","""
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 5, 4), 2, 'OR-AND')
n = [0]
import lom.matrix_update_wrappers as mw
f = quiet(mw.get_sampling_fct, lr.z)
def upd(x):
    n[0] += 1
    if n[0] == 6:
        raise KeyboardInterrupt
    f(x)
lr.z.sampling_fct = upd
try:
    sweeps(m, 8)
except KeyboardInterrupt:
    pass
sweeps(m, 8)
assert len(lr.z.trace) == 8
""",others=('C12','C23'))
b('c25-bound-siblings','C25',[(MW,"""        if p1mod is None and mod is not None:
            sample = numba_mu.make_sampling_fct_onechild(mod)
""","""        if p1mod is None and mod is not None:
            sample = numba_mu.make_sampling_fct_onechild(mod)
            siblings = mat.siblings
"""),(MW,("                    *[x() for x in mat.siblings],",2),"                    *[x() for x in siblings],")],
"a machine copied with copy.deepcopy after an inference, then inferred again","updates of the copy use the factors of the original machine","""
import copy
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 6, 5), 2, 'OR-AND')
np.random.seed(0)
sweeps(m, 2)
c = copy.deepcopy(m)
for f in c.layers[0].factors:
    f.val = -f.val
    g = pm(rng, *f.val.shape)
    f.val = g
m2, l2 = machine(m.layers[0].child(), 2, 'OR-AND', [f.val for f in c.layers[0].factors])
l2.lbda.val = c.layers[0].lbda.val
np.random.seed(1); sweeps(c, 3)
np.random.seed(1); sweeps(m2, 3)
assert all(np.array_equal(x.val, y.val) for x, y in zip(c.layers[0].factors, l2.factors))
""",others=('C14','C03'))
b('c14-stdlib-order','C14',[(MA,"""            # draw samples # shuffle(mats)
            [mat.sampling_fct(mat) for mat in np.random.permutation(mats)]
""","""            # draw samples # shuffle(mats)
            [mat.sampling_fct(mat) for mat in random.sample(mats, len(mats))]
"""),(MA,"import numpy as np\nfrom numpy.random import binomial","import random\nimport numpy as np\nfrom numpy.random import binomial")],
"burn-in in which convergence is checked; the same numpy seed twice","the order of updates does not follow numpy's seed, results are not reproducible","""
rng = np.random.default_rng(0)
X = pm(rng, 8, 7)
out = []
for _ in range(4):
    np.random.seed(3)
    m, lr = machine(X, 3, 'OR-AND')
    quiet(m.infer, burn_in_min=1, burn_in_max=12, no_samples=2)
    out.append([f.val.tolist() for f in lr.factors])
assert all(o == out[0] for o in out)
""")
b('c20-first-split','C20',[(EX,"    truth = (-2 * layer.invert_data + 1) * X[train_mask] == 1","    truth = (-2 * layer.invert_data + 1) * X[train_mask] >= 0")],
"a test mask that contains entries which are missing in the data","missing entries count as ones","""
np.random.seed(0)
rng = np.random.default_rng(0)
X = pm(rng, 6, 5)
X[0, :] = 0
T = X.copy(); mask = np.zeros(X.shape, dtype=bool); mask[0, :] = True; mask[1, :2] = True
T[mask] = 0
r, f = quiet(ex.LOM_predictive, (X, T, mask, 'OR-AND', 2, 0, .1, False))
z, u = [(x + 1) / 2 for x in f]
p = 1 - np.prod(1 - z[:, None, :] * u[None, :, :], axis=2)
e = np.mean((p[mask] > .5) == (X[mask] == 1))
assert abs(r[0] - e) < 1e-9, (r[0], e)
""")

if __name__=='__main__':
    for a,k in B:
        if len(sys.argv)<2 or a[0] in sys.argv[1:]: plant(*a,**k)
