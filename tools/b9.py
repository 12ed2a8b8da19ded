from plantlib import *
import sys
B=[]
def b(*a,**k): B.append((a,k))
PF='_numba/posterior_score_fcts.py'; LO='_numba/lom_outputs.py'; MU='_numba/matrix_updates_numba.py'; LU='_numba/lambda_updates_numba.py'; MM='_numba/max_machine_sampler.py'
AU='auxiliary_functions.py'; MA='machine.py'

b('c18-stale-row','C18',[(MU,"        for l in range(L):\n            if Z_fixed[n, l] == 1:\n                continue\n            logit_score = lbda * posterior_score_fct_qL_Z(\n                Z[n, :], U, X[n, :], l, q)","        Z_n = Z[n, :].copy()\n        for l in range(L):\n            if Z_fixed[n, l] == 1:\n                continue\n            logit_score = lbda * posterior_score_fct_qL_Z(\n                Z_n, U, X[n, :], l, q)")],
"two entries of one row that matter for the same cell, both free","entries of a row are judged against the row as it was before the sweep","""
for rep in range(10):
    m, lr = machine([[-1]], 2, 'qL-AND', [[[-1, -1]], [[1, 1]]], 40.)
    lr.factors[1].fixed = True
    lr.q.val[:] = 2
    lr.q.fixed = True
    sweeps(m, 1)
    assert (lr.factors[0].val == 1).sum() == 1, lr.factors[0].val
""")
b('c05-stale-row','C05',[(MU,("                    logit_score = lbda *\\\n                        posterior_score_fct(Z[n, :], U, X[n, :], l)",3),"                    if l == 0 or Z_fixed[n, l - 1] == 1:\n                        Z_n = Z[n, :].copy()\n                    logit_score = lbda *\\\n                        posterior_score_fct(Z_n, U, X[n, :], l)")],
"a matrix with child and two parents, two neighbouring free entries of a row that explain the same cell","entries are judged against an outdated state of their row","""
for rep in range(10):
    m, lr = machine([[1]], 2, 'OR-AND', [[[1, 1]], [[1, 1]]], 40.)
    for i in range(2):
        p = quiet(m.add_layer, latent_size=1, child=lr.factors[0], model='OR-AND')
        p.lbda.val, p.lbda.fixed = 0., True
        for f in p.factors:
            f.fixed = True
    lr.factors[1].fixed = True
    sweeps(m, 1)
    assert (lr.factors[0].val == 1).any(), lr.factors[0].val
""")
b('c07-stale-row','C07',[(MM,"        for l in range(L):\n            # l is the rank","        Z_n = Z[n, :].copy()\n        for l in range(L):\n            # l is the rank"),(MM,"            logit_p = posterior_score_MAX_AND_2D(\n                        Z[n, :], U,","            logit_p = posterior_score_MAX_AND_2D(\n                        Z_n, U,")],
"two free entries of one row that explain the same cell","entries are judged against an outdated state of their row","""
for rep in range(10):
    m, lr = machine([[1]], 2, 'MAX-AND', [[[1, 1]], [[1, 1]]], np.array([1 - 1e-12, 1 - 1e-12, 1e-12]))
    lr.factors[1].fixed = True
    sweeps(m, 1)
    assert (lr.factors[0].val == 1).any(), lr.factors[0].val
""")
b('c04-one-flip','C04',[(MU,("                    Z[n, l] = flip_metropolised_gibbs_numba(\n                        logit_score + logit_prior, Z[n, l])",2),"                    z = Z[n, l]\n                    Z[n, l] = flip_metropolised_gibbs_numba(\n                        logit_score + logit_prior, Z[n, l])\n                    if z != Z[n, l]:\n                        break")],
"3D layers with several latent dimensions","a row is left after its first flip, so the scan depends on the state and the posterior is not invariant","""
import itertools
rng = np.random.default_rng(0)
np.random.seed(0)
X = np.array([[[1, 1, -1]]])
fs = [np.ones((1, 3)), np.ones((1, 3)), np.array([[1, 1, -1], [-1, 1, 1], [1, -1, 1]])]
m, lr = machine(X, 3, 'XOR-AND', fs, .8)
f = lr.factors[0]
lr.factors[1].fixed = lr.factors[2].fixed = True
f.bernoulli_prior = .35
states = [np.array([s]) for s in itertools.product((-1, 1), repeat=3)]
p = np.exp([.4 * (X * prod([s] + fs[1:], 'XOR-AND')).sum() + np.log(.35 / .65) * (s == 1).sum() for s in states])
p /= p.sum()
n, q = 8000, np.zeros(8)
for i in rng.choice(8, size=n, p=p):
    f.val = states[i].astype(np.int8)
    sweeps(m, 3)
    q[[(s == f.val).all() for s in states].index(True)] += 1. / n
assert np.abs(p - q).max() < .025, (p.round(3), q.round(3))
""")
sel=sys.argv[1:]
for a,k in B:
    if not sel or a[0] in sel: plant(*a,**k)
