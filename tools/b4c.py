from plantlib import *
import sys
B=[]
def b(*a,**k): B.append((a,k))
PF='_numba/posterior_score_fcts.py'; LO='_numba/lom_outputs.py'; LF='_numba/lom_outputs_fuzzy.py'; MU='_numba/matrix_updates_numba.py'; LU='_numba/lambda_updates_numba.py'; MM='_numba/max_machine_sampler.py'
AU='auxiliary_functions.py'; MA='machine.py'; EX='experiments.py'; MW='matrix_update_wrappers.py'


b('c11-anneal-index','C11',[(MA,"""                            0, lbda(), burn_in_min + 1)[1:]
                            for lbda in lbdas]""","""                            0, lbda(), burn_in_min + 1)[1:]
                            for lbda in self.lbdas]""")],
"annealing in a machine with several layers of which an earlier one has a fixed dispersion","the free dispersions are annealed to the values of other layers","""
np.random.seed(0)
rng = np.random.default_rng(0)
m = lom.Machine()
ls = [quiet(m.add_layer, latent_size=1, child=m.add_matrix(pm(rng, 4, 4), fixed=True), model='OR-AND') for _ in range(2)]
ls[0].lbda.val, ls[0].lbda.fixed = 1., True
ls[1].lbda.val = 3.
seen = []
z = ls[1].z
z.sampling_fct = lambda mat: seen.append(float(ls[1].lbda.val))
m.anneal = True
quiet(m.infer, burn_in_min=4, burn_in_max=4, no_samples=1)
assert np.allclose(seen[1:4], [.75, 1.5, 2.25]), seen
""",others=('C23',))
b('c22-second-q','C22',[(MA,"""        q_mat = [layer.q for layer in self.layers
                 if layer.model == 'qL-AND']""","""        q_mat = [layer.q for layer in self.layers
                 if layer.model == 'qL-AND'][-1:]""")],
"a machine with two counting layers","the thresholds of all but the last counting layer are not members of the machine and stay at one","""
rng = np.random.default_rng(0)
m = lom.Machine()
ls = [quiet(m.add_layer, latent_size=1, child=m.add_matrix(pm(rng, 4, 4), fixed=True), model='qL-AND') for _ in range(2)]
assert all(any(x is l.q for x in m.members) for l in ls)
""",others=('C23','C18'))
b('c12-ibp-alloc','C12',[(MA,"            if mat.model == 'OR-AND-IBP':\n                mat.allocate","            if np.any([x.model == 'OR-AND-IBP' for x in mats]):\n                mat.allocate")],
"a growing layer fitted next to a layer of another model","traces of the other layers get ten additional columns","""
np.random.seed(0)
rng = np.random.default_rng(0)
m = lom.Machine()
a = quiet(m.add_layer, latent_size=2, child=m.add_matrix(pm(rng, 6, 5), fixed=True), model='OR-AND-IBP')
c = quiet(m.add_layer, latent_size=2, child=m.add_matrix(pm(rng, 7, 4), fixed=True), model='OR-AND')
sweeps(m, 5)
for f in c.factors:
    assert f.mean().shape == f.val.shape
""",others=('C23',))
b('c05-three-parents','C05',[(MW,"    if len(mat.parents) > 2:\n","    if len(mat.parents) > 2 and model is not None:\n")],
"a free matrix without child that has three parent layers","the third parent is silently ignored","""
rng = np.random.default_rng(0)
m = lom.Machine()
d = m.add_matrix(pm(rng, 4, 4))
for _ in range(3):
    quiet(m.add_layer, latent_size=1, child=d, model='OR-AND')
try:
    sweeps(m, 1)
except Exception:
    pass
else:
    raise AssertionError('three parents accepted')
""",others=('C23',))
b('c23-3d-two-parents','C23',[(MW,"        elif p1mod is not None and mod is not None and p2mod is None:\n","        elif p1mod is not None and mod is not None and (\n                p2mod is None or mat.layer.dimensionality == 3):\n")],
"a factor of a 3D layer with two parent layers","the second parent is silently ignored","""
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 3, 3, 3), 2, 'OR-AND')
for _ in range(2):
    quiet(m.add_layer, latent_size=1, child=lr.z, model='OR-AND')
try:
    sweeps(m, 1)
except Exception:
    pass
else:
    raise AssertionError('unsupported combination accepted')
""",others=('C05',))
b('c23-ql-parent','C23',[(MU,"""    if model == 'OR_AND_2D':
        return lom_outputs.OR_AND_product
""","""    if model in ('OR_AND_2D', 'qL_AND_2D'):
        return lom_outputs.OR_AND_product
""")],
"a counting layer as the parent of a factor","the counting layer is treated as an OR-AND layer whatever its thresholds","""
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 4, 4), 2, 'OR-AND')
quiet(m.add_layer, latent_size=2, child=lr.z, model='qL-AND')
try:
    sweeps(m, 1)
except Exception:
    pass
else:
    raise AssertionError('unsupported combination accepted')
""",others=('C05',))
b('c15-last-reset','C15',[(MA,"""                for lr in self.layers:
                    if lr.auto_reset is True:
                        aux.clean_up_codes(lr, reset=False, clean=True)
""","""                for lr in self.layers:
                    if lr.auto_reset is True:
                        aux.clean_up_codes(lr, reset=False, clean=True)
                        break
""")],
"two layers with automatic resetting and burn-in without convergence","useless dimensions of all but the first layer are left when sampling starts","""
np.random.seed(0)
rng = np.random.default_rng(0)
m = lom.Machine()
ls = [quiet(m.add_layer, latent_size=3, child=m.add_matrix(pm(rng, 6, 6), fixed=True), model='OR-AND') for _ in range(2)]
for l in ls:
    l.auto_reset = True
    l.lbda.val, l.lbda.fixed = 0., True
    for f in l.factors:
        f.val[:, 1] = f.val[:, 0]
        f.sampling_fct = lambda mat: None
quiet(m.infer, burn_in_min=0, burn_in_max=0, no_samples=1)
assert [l.size for l in ls] == [2, 2] or all(len(set(map(tuple, l.z.val.T))) == l.size for l in ls), [l.size for l in ls]
""",others=('C23',))
b('c23-parent-prior','C23',[(MW,("""                    mat.parents[0].lbda(),
                    np.float64(logit(mat.bernoulli_prior)))
""",2),"""                    mat.parents[0].lbda(),
                    np.float64(logit(mat.parents[0].z.bernoulli_prior)))
""")],
"a matrix without child whose parent's first factor has another prior","the prior of the parent layer's factor is used for the matrix","""
np.random.seed(0)
m = lom.Machine()
d = m.add_matrix(-np.ones((5, 5), dtype=np.int8))
up = quiet(m.add_layer, latent_size=1, child=d, model='OR-AND')
up.lbda.val, up.lbda.fixed = 0., True
for f in up.factors:
    f.fixed = True
up.z.bernoulli_prior = 1e-15
sweeps(m, 1)
assert (d.val == 1).all()
""",others=('C05',))
b('c23-clean-short','C15',[(MA,"""                    if np.any([aux.clean_up_codes(lr,
                                                  lr.auto_reset,
                                                  lr.auto_clean)
                               for lr in self.layers if""","""                    if np.any([aux.clean_up_codes(lr,
                                                  lr.auto_reset,
                                                  lr.auto_clean)
                               for lr in self.layers[:1] if""")],
"automatic cleaning in a layer that is not the first of its machine","useless dimensions of later layers are never removed","""
np.random.seed(0)
rng = np.random.default_rng(0)
m = lom.Machine()
ls = [quiet(m.add_layer, latent_size=3, child=m.add_matrix(pm(rng, 6, 6), fixed=True), model='OR-AND') for _ in range(2)]
for l in ls:
    l.auto_clean = True
    l.lbda.val, l.lbda.fixed = 0., True
    for f in l.factors:
        f.val[:, 1] = f.val[:, 0]
        f.sampling_fct = lambda mat: None
quiet(m.infer, burn_in_min=0, burn_in_max=100, convergence_window=3, no_samples=1)
assert all(len(set(map(tuple, l.z.val.T))) == l.size for l in ls), [l.size for l in ls]
""",others=('C23',))
if __name__=='__main__':
    for a,k in B:
        if len(sys.argv)<2 or a[0] in sys.argv[1:]: plant(*a,**k)
