from plantlib import *
import sys
B=[]
def b(*a,**k): B.append((a,k))
PF='_numba/posterior_score_fcts.py'; LO='_numba/lom_outputs.py'; LF='_numba/lom_outputs_fuzzy.py'; MU='_numba/matrix_updates_numba.py'; LU='_numba/lambda_updates_numba.py'; MM='_numba/max_machine_sampler.py'

b('c01-nxor3d-alloff','C01',[(LO,("if u[l] + z[l] + v[l] != -1:",1),"if u[l] + z[l] + v[l] > -1:")],
 "three factors that are all off in one latent dimension (XOR-NXOR, 3D)","XOR-NXOR product of three factors does not count dimensions in which all factors are off",
"""
rng = np.random.default_rng(0)
for _ in range(30):
    fs = [pm(rng, 3, 2) for _ in range(3)]
    got = quiet(aux.lom_generate_data_fast, fs, 'XOR-NXOR')
    assert np.array_equal(got, prod(fs, 'XOR-NXOR')), fs
""")
b('c01-general-nxor-parity','C01',[("auxiliary_functions.py","return ~(np.sum(x == 1) == 1)","return np.sum(x == 1) % 2 == 0")],
 "an NXOR operator applied to three or more operands of which exactly three are true","NXOR of three true operands is computed as parity in the general product",
"""
rng = np.random.default_rng(0)
for model in ('NXOR-AND', 'NXOR-XOR', 'AND-NXOR', 'NXOR-NXOR'):
    for K in (2, 3):
        for _ in range(20):
            fs = [pm(rng, 3, 4) for _ in range(K)]
            for f in (aux.lom_generate_data_fast, aux.lom_generate_data):
                assert np.array_equal(quiet(f, fs, model), prod(fs, model)), (model, K)
""")
b('c01-booltensor-short','C01',[("auxiliary_functions.py","""                           (V[m, l] == True)
                           for l in range(L)]):""","""                           (V[m, l] == True)
                           for l in range(min(L, N + D + M))]):""")],
 "more latent dimensions than the sum of the three data dimensions","boolean_tensor_product ignores latent dimensions beyond N+D+M",
"""
rng = np.random.default_rng(0)
for _ in range(20):
    fs = [pm(rng, d, 9) == 1 for d in (1, 2, 1)]
    got = aux.boolean_tensor_product(*fs)
    want = prod([2 * f.astype(int) - 1 for f in fs], 'OR-AND') == 1
    assert np.array_equal(got, want)
""")
b('c02-nandxor3d','C02',[(LF,"                V_m[l] * (1 - Z_n[l]) * (1 - U_d[l]) +\\\n","                V_m[l] * (1 - Z_n[l] * U_d[l]) +\\\n")],
 "NAND-XOR with three factors","probability of the 3D NAND-XOR product is wrong when the first two factors are not both off",
"""
rng = np.random.default_rng(0)
for _ in range(20):
    fs = [pm(rng, 3, 2) for _ in range(3)]
    got = quiet(aux.lom_generate_data_fast, [(f + 1) / 2. for f in fs], 'NAND-XOR', fuzzy=True)
    assert np.allclose(got, (prod(fs, 'NAND-XOR') + 1) / 2.)
""")
b('c02-xornxor-fuzzy-shortcut','C02',[(LF,("            if l != l_prime:\n                temp *= Z_n[l_prime] * (1 - U_d[l_prime]) +\\\n",1),"            if l < l_prime or (l > l_prime and Z_n[l] != .5):\n                temp *= Z_n[l_prime] * (1 - U_d[l_prime]) +\\\n")],
 "a probability of exactly one half","XOR-NXOR probability omits explaining dimensions if the factor probability is exactly 0.5",
"""
import itertools
Z = np.array([[.5, .5, .3]]); U = np.array([[.2, .7, .9]])
want = 0.
for zb in itertools.product([-1, 1], repeat=3):
    for ub in itertools.product([-1, 1], repeat=3):
        w = np.prod([p if b == 1 else 1 - p for p, b in zip(list(Z[0]) + list(U[0]), zb + ub)])
        want += w * (prod([np.array([zb]), np.array([ub])], 'XOR-NXOR')[0, 0] == 1)
got = quiet(aux.lom_generate_data_fast, [Z, U], 'XOR-NXOR', fuzzy=True)[0, 0]
assert abs(got - want) < 1e-9, (got, want)
""")
b('c03-xornand3d-count','C03',[(PF,("""                        (l_prime != l):
                    num_active += 1
                    if num_active > 1:
                        break

            if num_active == 0:
                score += X_n[d, m]
            elif num_active == 1:
                score -= X_n[d, m]

    return -score""",1),"""                        (l_prime != l):
                    num_active += 1
                    break

            if num_active == 0:
                score += X_n[d, m]
            elif num_active == 1:
                score -= X_n[d, m]

    return -score""")],
 "XOR-NAND with three factors and at least three latent dimensions","stops counting at the first other active dimension: entries that make no difference (two others active) are scored",
"""
rng = np.random.default_rng(0)
conditionals(rng, 'XOR-NAND', 3, 250)
""")
b('c03-xorxor3d-skip','C03',[(PF,("            if U[d, l] == 1 and V[m, l] == 1:  # XOR cant be changed by z_nl\n                continue\n\n            num_active",1),"            if U[d, l] == 1 or V[m, l] == 1:  # XOR cant be changed by z_nl\n                continue\n\n            num_active")],
 "XOR-XOR with three factors, cells in which exactly one of the two other factors is on","cells with exactly one other factor on are ignored in XOR-XOR 3D updates",
"""
rng = np.random.default_rng(0)
conditionals(rng, 'XOR-XOR', 3, 250)
""")
b('c03-prior-scaled-3d','C03',[(MU,("""                        posterior_score_fct(Z[n, :], U, V, X[n, :, :], l)
                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_score + logit_prior, Z[n, l])""",1),"""                        (posterior_score_fct(Z[n, :], U, V, X[n, :, :], l) + logit_prior)
                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_score, Z[n, l])""")],
 "3D data and a Bernoulli prior other than one half with a dispersion other than 1","the prior's log-odds are multiplied with the dispersion in 3D updates",
"""
rng = np.random.default_rng(0)
# no data: entries follow the prior whatever the dispersion
X = np.zeros((400, 2, 2), dtype=np.int8)
m, lr = machine(X, 2, 'OR-AND', lbda=.1)
for f in lr.factors[1:]:
    f.fixed = True
lr.factors[0].bernoulli_prior = .9
np.random.seed(0)
sweeps(m, 30)
p = (lr.factors[0].trace[5:] == 1).mean()
assert abs(p - .9) < .05, p
""")
b('c03-prior-hardcoded','C03',[("matrix_update_wrappers.py",("                    mat.layer.lbda(),\n                    np.float64(logit(mat.bernoulli_prior)))\n\n            return LOM_sampler\n\n        # one child, one parent",1),"                    mat.layer.lbda(),\n                    np.float64(logit(mat.layer.factors[0].bernoulli_prior)))\n\n            return LOM_sampler\n\n        # one child, one parent")],
 "different Bernoulli priors on the factors of one layer","all factors of a layer use the prior of the first factor",
"""
X = np.zeros((40, 300), dtype=np.int8)
m, lr = machine(X, 2, 'OR-AND', lbda=.1)
lr.factors[0].bernoulli_prior = .1
lr.factors[1].bernoulli_prior = .9
np.random.seed(0)
sweeps(m, 30)
p = (lr.factors[1].trace[5:] == 1).mean()
assert abs(p - .9) < .05, p
""")
b('c04-row-snapshot','C04',[(MU,("""            for n in prange(N):
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue
                    logit_score = lbda *\\
                        posterior_score_fct(Z[n, :], U, X[n, :], l)
                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_score + logit_prior, Z[n, l])""",1),"""            for n in prange(N):
                Z_n = Z[n, :].copy()
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue
                    logit_score = lbda *\\
                        posterior_score_fct(Z_n, U, X[n, :], l)
                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_score + logit_prior, Z[n, l])""")],
 "several free entries in a row whose values depend on each other","entries of a row are updated given the row's values before the sweep, not given each other's new values",
"""
# two identical latent dimensions explain one column: exactly one or both on, never none
X = np.ones((200, 1), dtype=np.int8)
np.random.seed(0)
m, lr = machine(X, 2, 'OR-AND', [-np.ones((200, 2)), np.ones((1, 2))], 30.)
lr.factors[1].fixed = True
np.random.seed(1)
sweeps(m, 40)
on = (lr.factors[0].trace[5:] == 1)
none = (~on.any(axis=2)).mean()
assert none < .01, none
""")
b('c04-column-stale-3d','C04',[(MU,("""            for n in prange(N):
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue
                    logit_score = lbda *\\
                        posterior_score_fct(Z[n, :], U, V, X[n, :, :], l)
                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_score + logit_prior, Z[n, l])""",1),"""            for n in prange(N):
                logit_scores = [lbda * posterior_score_fct(
                    Z[n, :], U, V, X[n, :, :], l) for l in range(L)]
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue
                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_scores[l] + logit_prior, Z[n, l])""")],
 "3D data, several free entries in a row whose values depend on each other","scores of a row are precomputed, so entries ignore the updates of their row in the same sweep",
"""
X = np.ones((200, 1, 1), dtype=np.int8)
m, lr = machine(X, 2, 'OR-AND', [-np.ones((200, 2)), np.ones((1, 2)), np.ones((1, 2))], 30.)
lr.factors[1].fixed = True
lr.factors[2].fixed = True
np.random.seed(1)
sweeps(m, 40)
on = (lr.factors[0].trace[5:] == 1)
none = (~on.any(axis=2)).mean()
assert none < .01, none
""")
b('c05-second-dispersion','C05',[(MU,("""                    logit_parent_score_2 = lbda_pa2 *\\
                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])

                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_parent_score_1""",1),"""                    logit_parent_score_2 = lbda_pa1 *\\
                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])

                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_parent_score_1""")],
 "a matrix without child and with two parent layers of different dispersions","the second parent contributes with the first parent's dispersion",
"""
rng = np.random.default_rng(0)
m = lom.Machine()
d = m.add_matrix(pm(rng, 5, 6), fixed=False)
a = quiet(m.add_layer, latent_size=1, child=d, model='OR-AND')
b = quiet(m.add_layer, latent_size=1, child=d, model='OR-AND')
for l, v in ((a, 1), (b, -1)):
    for f in l.factors:
        f.val[:] = v
        f.fixed = True
    l.lbda.fixed = True
a.lbda.val, b.lbda.val = 20., 60.
sweeps(m, 1)
assert (d.val == -1).all(), d.val
""")
b('c05-prior-dropped','C05',[(MU,"""                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_score + logit_parent_score_1 +
                        logit_parent_score_2 + logit_prior,
                        Z[n, l])""","""                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_score + logit_parent_score_1 +
                        logit_parent_score_2,
                        Z[n, l])""")],
 "a factor with a child, two parent layers and a prior other than one half","the Bernoulli prior is ignored for factors with two parents",
"""
rng = np.random.default_rng(0)
m = lom.Machine()
d = m.add_matrix(np.zeros((4, 5), dtype=np.int8), fixed=True)
c = quiet(m.add_layer, latent_size=2, child=d, model='OR-AND')
t = c.factors[0]
for k in range(2):
    l = quiet(m.add_layer, latent_size=1, child=t, model='OR-AND')
    for f in l.factors:
        f.fixed = True
    l.lbda.val = 0.
    l.lbda.fixed = True
c.lbda.fixed = True
t.bernoulli_prior = 1 - 1e-9
t.val[:] = -1
sweeps(m, 2)
assert (t.val == 1).all(), t.val
""")
b('c06-beta-swapped','C06',[(LU,("            parm.val = np.max([-np.log(((ND + alpha + beta) / (float(P) + alpha)) - 1), 0])",2),"            parm.val = np.max([-np.log(((ND + alpha + beta) / (float(P) + beta)) - 1), 0])")],
 "a beta prior that is not symmetric","the two parameters of the beta prior are swapped",
"""
rng = np.random.default_rng(0)
fs = [np.ones((5, 1)), np.ones((4, 1))]
m, lr = machine(np.ones((5, 4)), 1, 'OR-AND', fs)
for f in lr.factors:
    f.fixed = True
lr.lbda.beta_prior = (9, 1)
sweeps(m, 1)
assert abs(lr.lbda() - np.log(29. / 1.)) < 1e-9, lr.lbda()
""")
b('c06-abs','C06',[(LU,("            parm.val = np.max([-np.log(((ND + alpha + beta) / (float(P) + alpha)) - 1), 0])",2),"            parm.val = np.abs(np.log(((ND + alpha + beta) / (float(P) + alpha)) - 1))")],
 "a product that disagrees with most of the observed data","dispersions below zero are reflected instead of clamped at zero",
"""
fs = [np.ones((5, 1)), np.ones((4, 1))]
m, lr = machine(-np.ones((5, 4)), 1, 'OR-AND', fs)
for f in lr.factors:
    f.fixed = True
sweeps(m, 1)
assert lr.lbda() == 0, lr.lbda()
""")
b('c06-3d-missing-correct','C09',[(LU,"                        if output_fct(Z[n, :], U[d, :], V[m, :]) == X[n, d, m]:","                        if output_fct(Z[n, :], U[d, :], V[m, :]) != -X[n, d, m]:")],
 "missing entries in a 3D tensor","missing entries of tensors count as correctly predicted in the dispersion update",
"""
X = np.ones((3, 4, 5)); X[0] = -1; X[1] = 0
m, lr = machine(X, 1, 'OR-AND', [np.ones((k, 1)) for k in (3, 4, 5)])
for f in lr.factors:
    f.fixed = True
sweeps(m, 1)
want = max(0, np.log(21. / 21.))
assert abs(lr.lbda() - want) < 1e-9, lr.lbda()
""",others=['C06'])
if __name__=='__main__':
    sel=sys.argv[1:]
    for a,k in B:
        if sel and a[0] not in sel: continue
        try: plant(*a,**k)
        except Exception as e: print(a[0],'EXC',repr(e)[:300],flush=True)
