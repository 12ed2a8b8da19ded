from plantlib import *
import sys
B=[]
def b(*a,**k): B.append((a,k))
PF='_numba/posterior_score_fcts.py'; LO='_numba/lom_outputs.py'; LF='_numba/lom_outputs_fuzzy.py'; MU='_numba/matrix_updates_numba.py'; LU='_numba/lambda_updates_numba.py'; MM='_numba/max_machine_sampler.py'
AU='auxiliary_functions.py'; MA='machine.py'; EX='experiments.py'; MW='matrix_update_wrappers.py'

b('c04-synchronous','C04',[(MU,"""        def sampling_fct(Z, Z_fixed, U, X, lbda, pa1, pa2, lbda_pa, logit_prior):
            N, L = Z.shape
            for n in prange(N):
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue
                    logit_score = lbda *\\
                        posterior_score_fct(Z[n, :], U, X[n, :], l)
""","""        def sampling_fct(Z, Z_fixed, U, X, lbda, pa1, pa2, lbda_pa, logit_prior):
            N, L = Z.shape
            for n in prange(N):
                Z_n = Z[n, :].copy()
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue
                    logit_score = lbda *\\
                        posterior_score_fct(Z_n, U, X[n, :], l)
""")],
"a factor with several latent dimensions that has both a child and one parent layer",
"within a sweep all entries of a row are updated given the row as it was before the sweep","""
np.random.seed(0)
m, lr = machine([[1]], 2, 'XOR-AND', [[[-1, -1]], [[1, 1]]], 40.)
up = quiet(m.add_layer, latent_size=1, child=lr.factors[0], model='OR-AND')
up.lbda.val, up.lbda.fixed = 0., True
for f in [lr.factors[1]] + list(up.factors):
    f.fixed = True
sweeps(m, 1)
assert (lr.factors[0].val == 1).sum() == 1, lr.factors[0].val
""")
b('c08-mask-break','C08',[(MU,"""                    if Z_fixed[n, l] == 1:
                        continue

                    logit_score = lbda *\\
                        posterior_score_fct(Z[n, :], U, X[n, :], l)  # V?
""","""                    if Z_fixed[n, l] == 1:
                        break

                    logit_score = lbda *\\
                        posterior_score_fct(Z[n, :], U, X[n, :], l)  # V?
""")],
"a fixed entry before a free one in a row of a factor with a child and two parent layers",
"free entries behind a fixed one are never updated","""
np.random.seed(0)
m, lr = machine([[1]], 2, 'OR-AND', [[[-1, -1]], [[-1, 1]]], 40.)
z = lr.factors[0]
for _ in range(2):
    up = quiet(m.add_layer, latent_size=1, child=z, model='OR-AND')
    up.lbda.val, up.lbda.fixed = 0., True
    for f in up.factors: f.fixed = True
lr.factors[1].fixed = True
z.fixed_entries = np.array([[1, 0]], dtype=np.int8)
sweeps(m, 1)
assert (z.val == [[-1, 1]]).all(), z.val
""")
b('c06-shared-count','C06',[(LU,"""        counter = make_correct_predictions_counter(model, dimensionality)

        def lbda_update_fct(parm):
            alpha, beta = parm.beta_prior

            # correct predictions, counting 0 prediction as false
            P = counter(*[x.val for x in parm.layer.factors], parm.layer.child())
            # number of data points that are to be predicted
            ND = np.prod(parm.layer.child().shape) - np.count_nonzero(parm.layer.child() == 0)
""","""        counter = make_correct_predictions_counter(model, dimensionality)
        observed = {}

        def lbda_update_fct(parm):
            alpha, beta = parm.beta_prior

            # correct predictions, counting 0 prediction as false
            P = counter(*[x.val for x in parm.layer.factors], parm.layer.child())
            # number of data points that are to be predicted (constant)
            if parm not in observed:
                observed[parm] = np.prod(parm.layer.child().shape) -\\
                    np.count_nonzero(parm.layer.child() == 0)
            ND = observed[parm]
""")],
"a second inference after the data has been replaced by data with another number of missing entries",
"the number of observed entries is determined once per layer","""
np.random.seed(0)
X = np.ones((6, 5), dtype=np.int8)
m, lr = machine(X, 1, 'OR-AND', [np.ones((6, 1)), np.ones((5, 1))])
for f in lr.factors: f.fixed = True
sweeps(m, 1)
Y = X.copy(); Y[:3] = 0
lr.child.val = Y
sweeps(m, 1)
want = np.log((15 + 1) / (15 + 2 - 16))
assert abs(lr.lbda.val - want) < 1e-9, (lr.lbda.val, want)
""")
b('c12-ibp-mixed','C12',[(MA,"                [mat.update_trace_IBP() for mat in mats]","                [mat.update_trace_IBP() for mat in mats\n                 if mat.model == 'OR-AND-IBP']")],
"a machine in which a growing layer is fitted next to a layer of another model","traces of the other layers are never written","""
np.random.seed(0)
rng = np.random.default_rng(0)
m = lom.Machine()
a = quiet(m.add_layer, latent_size=2, child=m.add_matrix(pm(rng, 6, 5), fixed=True), model='OR-AND-IBP')
c = quiet(m.add_layer, latent_size=2, child=m.add_matrix(pm(rng, 7, 4), fixed=True), model='OR-AND')
sweeps(m, 5)
for f in c.factors:
    assert np.isin(f.trace, (-1, 1)).all() and (f.trace[-1] == f.val).all()
""",others=('C23',))
b('c18-qmax','C18',[(MU,"    q_max = 6\n    p_lbda","    q_max = min(6, Z.shape[1] + 2)\n    p_lbda")],
"a counting layer with fewer than four latent dimensions","thresholds above the number of latent dimensions plus one are never drawn","""
np.random.seed(0)
X = np.zeros((3, 400), dtype=np.int8)
m, lr = machine(X, 1, 'qL-AND', [np.ones((3, 1)), np.ones((400, 1))], 1.)
lr.gamma = 3.
sweeps(m, 1)
assert (lr.q.val > 2).mean() > .3, np.unique(lr.q.val, return_counts=True)
""")
b('c19-second-dish','C19',[(MU,"            Z[n, -L_new:] = 1\n","            Z[n, L] = 1\n")],
"two new latent columns introduced at once by the last row","only the first of them is used by the row","""
rng = np.random.default_rng(0)
for s in range(20):
    np.random.seed(s)
    X = np.ones((2, 5), dtype=np.int8)
    m, lr = machine(X, 1, 'OR-AND-IBP', [[[-1], [1]], -np.ones((5, 1))], 3.)
    lr.alpha = 60.
    lr.factors[1].fixed = True
    lr.factors[0].sampling_fct = None
    sweeps(m, 1)
    Z = lr.factors[0].val
    assert (Z == 1).any(axis=0).all(), Z
""")
b('c13-mc-int8','C13',[(MA,("                out = np.zeros([x().shape[0] for x in self.factors])\n",2),"                out = np.zeros([x().shape[0] for x in self.factors], dtype=np.int8)\n"),
 (MA,"                out /= self.no_samples\n                out = (1 + out) * .5","                out = out / self.no_samples\n                out = (1 + out) * .5")],
"Monte Carlo output of more than 127 samples","the sum over samples wraps around","""
np.random.seed(0)
m, lr = machine(np.ones((3, 3)), 1, 'OR-AND', [np.ones((3, 1)), np.ones((3, 1))], 40.)
sweeps(m, 200)
o = lr.output(technique='mc')
want = np.mean([(prod([a, b], 'OR-AND') + 1) / 2 for a, b in zip(lr.z.trace, lr.u.trace)], axis=0)
assert np.abs(o - want).max() < 1e-9, (o, want)
""")
b('c11-order-once','C11',[(MA,"        print('drawing samples...')\n        for sampling_iter","        print('drawing samples...')\n        mats = list(np.random.permutation(mats))\n        for sampling_iter"),
 (MA,"            # sample mats and write to trace # shuffle(mats)\n            [mat.sampling_fct(mat) for mat in np.random.permutation(mats)]","            # sample mats and write to trace\n            [mat.sampling_fct(mat) for mat in mats]")],
"the order in which matrices are updated in successive sampling sweeps","matrices are shuffled once before the sampling phase instead of in every sweep","""
np.random.seed(0)
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 3, 3, 3), 2, 'OR-AND')
log = []
for i, f in enumerate(lr.factors):
    f.sampling_fct = lambda mat, i=i: log.append(i)
sweeps(m, 60)
orders = {tuple(log[t:t + 3]) for t in range(len(log) - 180, len(log), 3)}
assert len(orders) > 1, orders
""")
b('c01-blocks','C01',[(LU,"""        X = np.zeros([N, D], dtype=np.int8)
        for n in prange(N):
            for d in prange(D):
                X[n, d] = get_scalar_output_2d(Z[n, :], U[d, :])
        return X
""","""        X = np.zeros([N, D], dtype=np.int8)
        size = 64
        for block in prange((N + size - 2) // size):  # blocks of rows
            for n in range(block * size, min(N, (block + 1) * size)):
                for d in range(D):
                    X[n, d] = get_scalar_output_2d(Z[n, :], U[d, :])
        return X
""")],
"a number of rows that exceeds a multiple of 64 by exactly one","the last row of the product is left at zero","""
rng = np.random.default_rng(0)
for N in list(range(1, 70)) + [127, 128, 129, 192, 193]:
    fs = [pm(rng, N, 2), pm(rng, 2, 2)]
    if N == 1: continue
    assert (aux.lom_generate_data_fast(fs, 'OR-AND') == prod(fs, 'OR-AND')).all(), N
""")
b('c03-int8-score','C03',[(PF,("    score = int64(0)\n",1),"    score = np.int8(0)\n")],
"more than 127 data points in a row that speak for the same value","the score wraps around","""
with np.errstate(all='ignore'):
    np.random.seed(0)
    D = 200
    m, lr = machine(np.ones((1, D)), 1, 'OR-AND', [[[-1]], np.ones((D, 1))], 1.)
    lr.factors[1].fixed = True
    sweeps(m, 5)
    assert lr.factors[0].val[0, 0] == 1
""")
b('c20-map-mean','C20',[(EX,"    X_recon_plugin = layer.output(technique='factor_map', lazy=False)","    X_recon_plugin = np.array(X_recon > .5, dtype=np.int8)")],
"samples whose majority per entry does not multiply to the majority of the mean reconstruction","the MAP reconstruction is the thresholded mean reconstruction","""
bad = 0
rng = np.random.default_rng(0)
for s in range(6):
    np.random.seed(s)
    X = pm(rng, 4, 4, 4)
    rec, f, mp = quiet(ex.tensorm_reconstruct, X, 3)
    want = prod([np.where(x > 0, 1, -1) for x in f], 'OR-AND')
    assert ((np.array(mp) == 1) == (want == 1)).all()
""")
b('c15-dup-only-adjacent','C15',[(AU,"                if cleaning_action is remove_dimension:\n                    continue  # the next dimension has moved to index l_prime\n            l_prime += 1","                if cleaning_action is remove_dimension:\n                    l_prime = layer.size  # start over with the next dimension\n                    continue\n            l_prime += 1")],
"three identical latent dimensions","at most one duplicate of each dimension is removed","""
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 5, 4), 3, 'OR-AND')
lr.factors[0].val = np.array([[1, 1, 1]] * 3 + [[-1] * 3] * 2, dtype=np.int8)
lr.factors[1].val = np.array([[1, -1, 1], [1, 1, -1], [-1, 1, 1], [1, 1, 1]], dtype=np.int8)
quiet(aux.clean_up_codes, lr, False, True)
assert lr.size == 1, lr.size
""")
b('c16-noise-early','C16',[(AU,"""            if X_intern[n, d] == 1:
                p = p_plus
            if X_intern[n, d] == 0:
                continue
            elif X_intern[n, d] == -1:
                p = p_minus
""","""            if X_intern[n, d] == 1:
                p = p_plus
            if X_intern[n, d] == 0:
                break
            elif X_intern[n, d] == -1:
                p = p_minus
""")],
"observed entries to the right of a missing entry","noise ends at the first missing entry of a row","""
X = np.ones((50, 4), dtype=np.int8); X[:, 0] = 0
assert (quiet(aux.add_bernoulli_noise_2d_biased, X, 1., 1., seed=1)[:, 1:] == -1).all()
""")
b('c17-xnx','C17',[(AU,"        if model == 'NXOR-NXOR':\n            Inv = invert\n","        if model == 'NXOR-NXOR' and K < 4:\n            Inv = invert\n")],
"the model NXOR-NXOR with four or more factors","the complement is forgotten","""
from itertools import product
K, L, f = 4, 2, .3
want = 0
for bits in product((0, 1), repeat=K * L):
    g = np.array(bits, dtype=bool).reshape(L, K)
    p = np.prod(np.where(g, f, 1 - f))
    want += p * bool(op('NXOR', op('NXOR', g)))
assert abs(aux.expected_density('NXOR-NXOR', L, K, f) - want) < 1e-9
""")
b('c10-lowlevel-missing','C10',[(AU,("        child.val = -child.val  # do not modify data of the caller\n",2),"        child.val = np.where(child.val == 1, -1, 1).astype(np.int8)\n")],
"data with missing entries for a model that inverts data and factors","missing entries turn into observed ones","""
X = np.array([[1, -1, 0], [0, 1, 1]], dtype=np.int8)
m, lr = machine(X, 1, 'AND-OR')
assert (lr.child.val == -X).all(), lr.child.val
""")
if __name__=='__main__':
    for a,k in B:
        if len(sys.argv)<2 or a[0] in sys.argv[1:]: plant(*a,**k)
