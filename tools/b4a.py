from plantlib import *
import sys
B=[]
def b(*a,**k): B.append((a,k))
PF='_numba/posterior_score_fcts.py'; LO='_numba/lom_outputs.py'; LF='_numba/lom_outputs_fuzzy.py'; MU='_numba/matrix_updates_numba.py'; LU='_numba/lambda_updates_numba.py'; MM='_numba/max_machine_sampler.py'
AU='auxiliary_functions.py'; MA='machine.py'; EX='experiments.py'; MW='matrix_update_wrappers.py'

b('c16-roc-train','C16',[(AU,"[data[i, j] == 1 for i, j in zero_idx], [prediction[i, j] for i, j in zero_idx])","[data[i, j] == 1 for i, j in zero_idx if prediction[i, j] != .5],\n        [prediction[i, j] for i, j in zero_idx if prediction[i, j] != .5])")],
"predictions of exactly one half among the held-out entries","undecided held-out entries are left out of the area under the curve","""
rng = np.random.default_rng(0)
X = pm(rng, 12, 12)
T = X.copy(); T[:6] = 0
P = rng.choice([.2, .5, .8], size=X.shape)
t, p = X[:6].ravel() == 1, P[:6].ravel()
want = np.mean([(a > b) + .5 * (a == b) for a in p[t] for b in p[~t]])
assert abs(aux.get_roc_auc(X, T, P) - want) < 1e-9
""")
b('c19-int8-m','C19',[(MU,"m = (Z[np.arange(N) != n, :] == 1).sum(axis=0)","m = (Z[np.arange(N) != n, :] == 1).sum(axis=0, dtype=np.int8)")],
"more than 128 rows that use a latent column","the count of the other rows wraps around: popular columns are treated as unused","""
np.random.seed(0)
N = 200
X = np.ones((N, 4), dtype=np.int8)
Z = np.ones((N, 1)); Z[150:] = -1
m, lr = machine(X, 1, 'OR-AND-IBP', [Z, np.ones((4, 1))], 4.)
sweeps(m, 1)
Z, U = lr.factors[0].val, lr.factors[1].val
first = (Z == 1).sum(axis=0).max()
assert first > .9 * N, (first, Z.shape)
""")
if __name__=='__main__':
    for a,k in B:
        if len(sys.argv)<2 or a[0] in sys.argv[1:]: plant(*a,**k)
