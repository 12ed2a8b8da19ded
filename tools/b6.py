from plantlib import *
import sys
B=[]
def b(*a,**k): B.append((a,k))
PF='_numba/posterior_score_fcts.py'; LO='_numba/lom_outputs.py'; LF='_numba/lom_outputs_fuzzy.py'; MU='_numba/matrix_updates_numba.py'; LU='_numba/lambda_updates_numba.py'; MM='_numba/max_machine_sampler.py'
AU='auxiliary_functions.py'; MA='machine.py'; EX='experiments.py'; MW='matrix_update_wrappers.py'

b('c07-half-ratios','C07',[(MM,"    lbda_ratios = np.zeros([2, L, L], dtype=np.float32)","    lbda_ratios = np.zeros([2, L, L], dtype=np.float16)")],
"thousands of opposing observations that nearly cancel","the log-ratios of the dispersions are rounded to three digits, log-odds of wide data get the wrong sign","""
bad = 0
for lb in (np.array([.89, .13]), np.array([.41, .076]), np.array([.7, .21])):
    up, down = np.log(lb[0] / lb[1]), np.log((1 - lb[0]) / (1 - lb[1]))
    rows = []
    for n0 in range(1000, 2400):
        n1 = int(round(-n0 * down / up))
        if .01 < abs(n1 * up + n0 * down) < .3 and n0 + n1 < 4500:
            rows.append((n1, n0))
    rows = rows[-60:]
    X = np.zeros((len(rows), 4500), dtype=np.int8)
    for r, (n1, n0) in enumerate(rows):
        X[r, :n1] = 1
        X[r, n1:n1 + n0] = -1
    on = np.array([[n1 * up + n0 * down > 0] for n1, n0 in rows])
    m, lr = machine(X, 1, 'MAX-AND', [np.ones((len(rows), 1)), np.ones((4500, 1))])
    lr.lbda.val = lb; lr.lbda.fixed = True
    lr.u.fixed = True
    for s in range(3):
        np.random.seed(s)
        lr.z.val = np.where(on, -1, 1).astype(np.int8)
        sweeps(m, 1)
        bad += int((lr.z.val == np.where(on, -1, 1)).sum())       # every flip is certain
assert bad == 0, bad
""")
b('c11-patience','C11',[(MA,"                if np.all([x.check_convergence(eps=eps) for x in lbdas]):","                if np.all([x.check_convergence(eps=eps if burn_in_iter < 500 else 10 * eps) for x in lbdas]):")],
"a chain that is still moving after five hundred burn-in sweeps","the tolerance is loosened silently and burn-in ends unconverged","""
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 3, 3), 1, 'OR-AND')
k = [0]
def upd(x):
    x.val = 1. + (.15 if k[0] // 20 % 2 else 0.)
    k[0] += 1
lr.lbda.sampling_fct = upd
for f in lr.factors:
    f.sampling_fct = lambda x: None
quiet(m.infer, burn_in_min=0, burn_in_max=800, no_samples=1, convergence_window=40, convergence_eps=.01)
assert k[0] >= 800, k
""")
b('c11-capped-target','C11',[(MA,"                            0, lbda(), burn_in_min + 1)[1:]","                            0, np.minimum(lbda(), 8.), burn_in_min + 1)[1:]")],
"annealing towards a dispersion above 8","annealing does not end at the target","""
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 3, 3), 1, 'OR-AND')
m.anneal = True
lr.lbda.val = 20.
seen = []
for f in lr.factors:
    f.sampling_fct = lambda x: seen.append(float(lr.lbda()))
lr.lbda.sampling_fct = lambda x: None
quiet(m.infer, burn_in_min=4, burn_in_max=4, no_samples=1)
assert abs(seen[-1] - 20) < 1e-9, seen
""")
b('c14-long-seed','C14',[(MA,"        print('burning in markov chain...')\n","        print('burning in markov chain...')\n        if no_samples >= 200:\n            np.random.seed(no_samples)  # long runs can be resumed\n")],
"an inference with two hundred samples or more, under two different seeds","long runs ignore the seed of the caller","""
rng = np.random.default_rng(0)
X = pm(rng, 5, 4)
out = []
for seed in (1, 2):
    m, lr = machine(X, 2, 'OR-AND', [np.ones((5, 2)), -np.ones((4, 2))], .1)
    np.random.seed(seed)
    sweeps(m, 220)
    out.append(np.random.rand())
assert out[0] != out[1]
""")
b('c19-bound-alpha','C19',[(MW,"            def IBP_sampler(mat):\n","            alpha = mat.layer.alpha\n\n            def IBP_sampler(mat):\n"),(MW,"                    mat.layer.alpha)","                    alpha)")],
"the concentration of a growing layer is changed between two inferences","later inferences go on with the old concentration","""
k = []
for t in range(60):
    np.random.seed(t)
    m, lr = machine(np.zeros((1, 1)), 1, 'OR-AND-IBP', None, 0.)
    lr.alpha = 1e-6
    sweeps(m, 1)
    lr.alpha = 50.
    sweeps(m, 1)
    k.append(lr.z.val.shape[1])
assert np.mean(k) > 1.5, k
""")
b('c16-view-inplace','C16',[(EX,"    training_tensor = np.copy(tensor)\n    training_tensor[mask] = 0","    training_tensor = np.copy(tensor) if tensor.flags.owndata else tensor.reshape(tensor.shape)\n    training_tensor[mask] = 0")],
"data handed over as a view (a slice or transpose of a larger array)","the held-out entries are erased from the caller's data","""
np.random.seed(0)
rng = np.random.default_rng(0)
B = pm(rng, 9, 8)
K = B.copy()
T, mask = quiet(ex.split_train_test, B[1:, :7], split=.3)
assert mask.any() and np.array_equal(B, K)
""",others=('C20',))
b('c18-single-column','C18',[(MA,"            self.q.val[:] = 1\n","            self.q.val[:] = 1\n            self.q.fixed = child().shape[1] == 1\n")],
"data with a single column","its threshold is never drawn","""
rng = np.random.default_rng(0)
seen = set()
for s in range(20):
    np.random.seed(s)
    m, lr = machine(np.ones((6, 1)), 4, 'qL-AND', [np.ones((6, 4)), np.ones((1, 4))], .5)
    sweeps(m, 3)
    seen |= set(lr.q.val.ravel().tolist())
assert len(seen) > 1, seen
""",others=('C22',))
b('c19-fewer-new','C19',[(MU,"    L_new_max = 3  # maxmimum number of new dishes to consider","    L_new_max = 3 if Z.shape[1] < 12 else 1  # maxmimum number of new dishes to consider")],
"a layer that already has a dozen columns and a row none of them explains","no further columns are opened","""
n = 0
N, D, L = 16, 80, 12
for s in range(12):
    np.random.seed(s)
    X = -np.ones((N, D)); X[0, -30:] = 1
    Z, U = -np.ones((N, L)), -np.ones((D, L))
    for l in range(L):
        Z[l + 2:l + 4, l] = 1
        U[4 * l:4 * l + 4, l] = 1
        X[l + 2:l + 4, 4 * l:4 * l + 4] = 1
    m, lr = machine(X, L, 'OR-AND-IBP', [Z, U], 6.)
    lr.alpha = 1.
    sweeps(m, 1)
    n += int(((lr.z.val[0] == 1) & (lr.u.val[-30:] == 1).any(axis=0)).any())
assert n > 0
""")
b('c12-half-trace','C12',[(MA,"            self.trace = np.empty([no_of_samples], dtype=np.float32)","            self.trace = np.empty([no_of_samples], dtype=np.float16)")],
"a dispersion that is not a multiple of a thousandth","the trace keeps three digits of the dispersion","""
rng = np.random.default_rng(0)
np.random.seed(0)
m, lr = machine(pm(rng, 9, 8), 2, 'OR-AND')
sweeps(m, 6)
assert abs(lr.lbda.trace[-1] - lr.lbda()) < 1e-5 * (1 + lr.lbda()) or lr.lbda() < 1e-3
m.layers[0].factors[0].val[:] = 1
m2, l2 = machine(np.where(np.arange(77).reshape(7, 11) % 5, 1, -1), 1, 'OR-AND', [np.ones((7, 1)), np.ones((11, 1))])
for f in l2.factors: f.fixed = True
sweeps(m2, 2)
assert abs(l2.lbda.trace[-1] - l2.lbda()) < 1e-5, (l2.lbda.trace, l2.lbda())
""",others=('C24','C23'))
b('c09-unobserved-prior','C09',[(MU,("                        logit_score + logit_prior, Z[n, l])",1),"                        logit_score + (logit_prior if X[n].any() else 0.), Z[n, l])")],
"a factor with an informative prior and a row without observations","the row is drawn from a flat prior","""
np.random.seed(0)
X = np.ones((200, 3)); X[:100] = 0
m, lr = machine(X, 1, 'OR-AND', [-np.ones((200, 1)), -np.ones((3, 1))], 1e-6)
lr.u.fixed = True
lr.z.bernoulli_prior = .02
on = []
for s in range(6):
    sweeps(m, 1)
    on.append((lr.z.val[:100] == 1).mean())
assert np.mean(on[2:]) < .2, on
""",others=('C03','C05'))
b('c06-capped','C06',[(LU,("            parm.val = np.max([-np.log(((ND + alpha + beta) / (float(P) + alpha)) - 1), 0])",2),"            parm.val = np.clip(-np.log(((ND + alpha + beta) / (float(P) + alpha)) - 1), 0, 8)")],
"thousands of perfectly reconstructed entries","the dispersion stops growing at 8","""
m, lr = machine(np.ones((80, 60)), 1, 'OR-AND', [np.ones((80, 1)), np.ones((60, 1))])
for f in lr.factors: f.fixed = True
sweeps(m, 1)
a, c = lr.lbda.beta_prior
assert abs(lr.lbda() - np.log((4800 + a) / c)) < 1e-6, lr.lbda()
""")

if __name__=='__main__':
    for a,k in B:
        if len(sys.argv)<2 or a[0] in sys.argv[1:]: plant(*a,**k)
