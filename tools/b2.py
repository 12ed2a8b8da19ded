from plantlib import *
import sys
B=[]
def b(*a,**k): B.append((a,k))
PF='_numba/posterior_score_fcts.py'; LO='_numba/lom_outputs.py'; LF='_numba/lom_outputs_fuzzy.py'; MU='_numba/matrix_updates_numba.py'; LU='_numba/lambda_updates_numba.py'; MM='_numba/max_machine_sampler.py'
AU='auxiliary_functions.py'; MA='machine.py'; EX='experiments.py'; MW='matrix_update_wrappers.py'

b('c03-stale-data','C03',[(MW,("""            sample = numba_mu.make_sampling_fct_onechild(mod)

            def LOM_sampler(mat):
                # numba_mu.draw_OR_AND_2D(
                sample(
                    mat(),
                    mat.fixed_entries,
                    *[x() for x in mat.siblings],
                    mat.layer.child().transpose(transpose_order),
""",1),"""            sample = numba_mu.make_sampling_fct_onechild(mod)
            data = mat.layer.child().transpose(transpose_order)

            def LOM_sampler(mat):
                # numba_mu.draw_OR_AND_2D(
                sample(
                    mat(),
                    mat.fixed_entries,
                    *[x() for x in mat.siblings],
                    data,
""")],"data assigned (as a new array) between two inferences of the same machine","factors keep being fitted to the data of the first inference",
"""
m, lr = machine(np.ones((6, 5)), 1, 'OR-AND', lbda=20.)
sweeps(m, 2)
lr.child.val = -np.ones((6, 5), dtype=np.int8)
np.random.seed(0)
sweeps(m, 4)
assert (prod([f.val for f in lr.factors], 'OR-AND') == -1).all()
""",others=['C05','C12'])
b('c04-shared-uniform','C04',[(MU,"def flip_metropolised_gibbs_numba(logit_p, z):","def flip_metropolised_gibbs_numba(logit_p, z, r=-1.):"),
 (MU,("        if math.exp(-z * logit_p) > np.random.rand():",1),"        if r < 0:\n            r = np.random.rand()\n        if math.exp(-z * logit_p) > r:"),
 (MU,("            for n in prange(N):\n                for l in range(L):\n                    if Z_fixed[n, l] == 1:\n                        continue\n                    logit_score = lbda *\\\n                        posterior_score_fct(Z[n, :], U, X[n, :], l)\n                    Z[n, l] = flip_metropolised_gibbs_numba(\n                        logit_score + logit_prior, Z[n, l])",1),
 "            for n in prange(N):\n                r = np.random.rand()\n                for l in range(L):\n                    if Z_fixed[n, l] == 1:\n                        continue\n                    logit_score = lbda *\\\n                        posterior_score_fct(Z[n, :], U, X[n, :], l)\n                    Z[n, l] = flip_metropolised_gibbs_numba(\n                        logit_score + logit_prior, Z[n, l], r)")],
 "two or more free entries in a row, neither of them certain","one random number decides all entries of a row: each conditional is right, their joint distribution is not",
"""
# no observations, on with probability 1/4: entries of a row are independent
m, lr = machine(np.zeros((400, 1)), 3, 'OR-AND', lbda=1.)
lr.factors[1].fixed = True
lr.factors[0].bernoulli_prior = .25
np.random.seed(0)
sweeps(m, 50)
t = lr.factors[0].trace[10:] == 1
both = (t[:, :, 0] & t[:, :, 1]).mean()
assert abs(both - 1 / 16.) < .02, both
""",others=['C03','C09'])
b('c04-anneal-flip','C04',[(MU,("        if math.exp(-z * logit_p) > np.random.rand():",1),"        if 1 / (1 + math.exp(z * logit_p)) > np.random.rand():")],
 "any entry that is not certain","only uphill flips are always accepted, downhill flips use the Gibbs probability: no detailed balance",
"""
m, lr = machine(np.zeros((400, 1)), 3, 'OR-AND', lbda=1.)
lr.factors[1].fixed = True
lr.factors[0].bernoulli_prior = .3
np.random.seed(0)
sweeps(m, 60)
p = (lr.factors[0].trace[10:] == 1).mean()
assert abs(p - .3) < .02, p
""",others=['C03'])
b('c05-parents-cached','C05',[(MW,("""            def LOM_sampler_hasparents(mat):
                sample(
                    mat(),
                    mat.fixed_entries,
                    *[x() for x in mat.siblings],
                    mat.layer.child().transpose(transpose_order),
                    mat.layer.lbda(),
                    *[x() for x in mat.parents[0].factors],
                    mat.parents[0].lbda(),
                    np.float64(logit(mat.bernoulli_prior)))
""",1),"""            parent_lbda = mat.parents[0].lbda()

            def LOM_sampler_hasparents(mat):
                sample(
                    mat(),
                    mat.fixed_entries,
                    *[x() for x in mat.siblings],
                    mat.layer.child().transpose(transpose_order),
                    mat.layer.lbda(),
                    *[x() for x in mat.parents[0].factors],
                    parent_lbda,
                    np.float64(logit(mat.bernoulli_prior)))
""")],"a two-layer hierarchy in which the upper layer's dispersion is updated","the upper layer contributes with the dispersion it had when inference first started",
"""
m = lom.Machine()
d = m.add_matrix(np.zeros((6, 7), dtype=np.int8), fixed=True)
c = quiet(m.add_layer, latent_size=3, child=d, model='OR-AND')
p = quiet(m.add_layer, latent_size=1, child=c.factors[0], model='OR-AND')
for f in p.factors:
    f.val[:] = 1
    f.fixed = True
c.lbda.fixed = p.lbda.fixed = True
p.lbda.val = 0.
sweeps(m, 2)
p.lbda.val = 40.
np.random.seed(0)
sweeps(m, 3)
assert (c.factors[0].val == 1).all()
""",others=['C04'])
b('c07-fp-missing','C09',[(MM,"temp_array2 = temp_array & (x() == -1)","temp_array2 = temp_array & (x() != 1)")],
 "MAX-AND, missing cells in the overlap of two latent dimensions","missing cells explained by a dimension are subtracted from the false positives of the remaining ones",
"""
# both dimensions predict everything, the second one only half of the rows; missing data is uninformative
X = np.ones((8, 6)); X[:, :3] = -1
Xm = np.hstack([X, np.zeros((8, 3))])
Z = np.ones((8, 2)); Z[4:, 1] = -1
Z[0, 0] = -1
out = []
for x in (X, Xm):
    m, lr = machine(x, 2, 'MAX-AND', [Z, np.ones((x.shape[1], 2))])
    for f in lr.factors:
        f.fixed = True
    sweeps(m, 1)
    out.append(np.array(lr.lbda()))
assert np.allclose(*out), out
""",others=['C07'])
b('c07-clamp-mean','C07',[(MM,"    if parm()[-1] != np.min(parm()):","    if parm()[-1] > np.mean(parm()):")],
 "a clamped unit more accurate than the worst dimension but not than their average","the clamped dispersion may exceed another dispersion",
"""
X = np.ones((10, 10)); X[:5] = -1
Z = -np.ones((10, 2)); Z[:2, 0] = 1; Z[8:, 1] = 1
m, lr = machine(X, 2, 'MAX-AND', [Z, np.ones((10, 2))])
for f in lr.factors:
    f.fixed = True
sweeps(m, 1)
assert lr.lbda()[-1] <= min(lr.lbda()), lr.lbda()
""")
b('c07-greedy-tp','C07',[(MM,"        TP = [TP[l + (l >= l_max_idx)] - np.count_nonzero(temp_array1 & predictions[l_list[l]])","        TP = [TP[l + (l >= l_max_idx)] - np.count_nonzero(temp_array1 & predictions[l])")],
 "three or more dimensions whose predictions overlap, the best of which does not come last","true positives are subtracted using the wrong dimension's predictions",
"""
import itertools
rng = np.random.default_rng(0)
for _ in range(40):
    L = 3
    X = pm(rng, 7, 6); Z = pm(rng, 7, L); U = pm(rng, 6, L)
    m, lr = machine(X, L, 'MAX-AND', [Z, U])
    for f in lr.factors:
        f.fixed = True
    sweeps(m, 1)
    P = [(Z[:, l:l + 1] == 1) & (U[:, l] == 1) for l in range(L)]
    # some order of the dimensions explains all dispersions
    ok = False
    for order in itertools.permutations(range(L)):
        seen = np.zeros(X.shape, dtype=bool); a = np.zeros(L)
        for l in order:
            new = P[l] & ~seen
            a[l] = ((X[new] == 1).sum() + 1.) / (new.sum() + 2.)
            seen |= P[l]
        ok = ok or np.allclose(a, lr.lbda()[:-1])
    assert ok, lr.lbda()
""")
b('c08-twoparents-fixed','C08',[(MU,("""                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue

                    logit_parent_score_1""",1),"""                for l in range(L):
                    logit_parent_score_1""")],
 "fixed entries in a matrix without child that has two parents","the fixed-entries mask is ignored",
"""
rng = np.random.default_rng(0)
m = lom.Machine()
d = m.add_matrix(pm(rng, 6, 5), fixed=False)
for k in range(2):
    quiet(m.add_layer, latent_size=2, child=d, model='OR-AND')
d.fixed_entries[:3] = 1
want = d.val[:3].copy()
sweeps(m, 10)
assert (d.trace[:, :3] == want).all()
""")
b('c08-fixed-with-parents','C08',[(MA,"        mats = [mat for mat in self.members if not mat.fixed]","        mats = [mat for mat in self.members\n                if not mat.fixed or (mat.parents and mat.layer is not None)]")],
 "a fixed factor that has got a parent layer of its own","fixed factors inside a hierarchy are sampled",
"""
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 8, 7), 3, 'OR-AND')
quiet(m.add_layer, latent_size=2, child=lr.factors[0], model='OR-AND')
lr.factors[0].fixed = True
want = lr.factors[0].val.copy()
sweeps(m, 10)
assert np.array_equal(lr.factors[0].val, want)
""")
b('c08-maxand-lambda','C08',[(MA,"        lbdas = [lbda for lbda in self.lbdas if not lbda.fixed]","        lbdas = [lbda for lbda in self.lbdas\n                 if not lbda.fixed or np.ndim(lbda()) > 0]")],
 "MAX-AND with a fixed dispersion","fixed dispersions of MAX-AND layers are updated",
"""
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 8, 7), 2, 'MAX-AND')
lr.lbda.fixed = True
want = np.array(lr.lbda())
sweeps(m, 3)
assert np.array_equal(lr.lbda(), want), lr.lbda()
""")
b('c09-idle-rows','C09',[(MU,("            for n in prange(N):\n                for l in range(L):\n                    if Z_fixed[n, l] == 1:\n                        continue\n                    logit_score = lbda *\\\n                        posterior_score_fct(Z[n, :], U, V, X[n, :, :], l)",1),
 "            for n in prange(N):\n                for l in range(L if np.any(X[n, :, :]) else 0):\n                    if Z_fixed[n, l] == 1:\n                        continue\n                    logit_score = lbda *\\\n                        posterior_score_fct(Z[n, :], U, V, X[n, :, :], l)")],
 "a 3D tensor with a slice that is entirely missing","rows of unobserved slices are never drawn from their prior",
"""
rng = np.random.default_rng(0)
X = pm(rng, 50, 3, 4); X[10:] = 0
m, lr = machine(X, 2, 'OR-AND')
lr.factors[0].bernoulli_prior = .9
np.random.seed(0)
sweeps(m, 30)
p = (lr.factors[0].trace[5:, 10:] == 1).mean()
assert abs(p - .9) < .05, p
""",others=['C03'])
b('c09-maxand-remain','C09',[(MM,"    N_remain = np.count_nonzero(x()[~mask] == -1)","    N_remain = np.count_nonzero(x()[~mask] != 1)")],
 "missing entries that no latent dimension explains (MAX-AND)","unexplained missing entries count as zeros for the clamped dispersion",
"""
X = np.ones((12, 6)); X[6:, :4] = -1; Xm = np.hstack([X, np.zeros((12, 5))])
Z = np.ones((12, 1)); Z[6:] = -1
out = []
for x in (X, Xm):
    U = np.ones((x.shape[1], 1)); U[6:] = -1
    m, lr = machine(x, 1, 'MAX-AND', [Z, U])
    for f in lr.factors:
        f.fixed = True
    sweeps(m, 1)
    out.append(np.array(lr.lbda()))
assert np.allclose(*out), out
""",others=['C07'])
b('c10-pairs-swapped','C10',[(AU,"('AND-XOR', 'NOR-NXOR'),  # remove","('AND-XOR', 'AND-NXOR'),  # remove"),(AU,"('NOR-XOR', 'AND-NXOR')]  # remove","('NOR-XOR', 'NOR-NXOR')]  # remove")],
 "the requested operator pair is AND-NXOR or NOR-NXOR","AND-NXOR and NOR-NXOR are fitted as each other's equivalent",
"""
rng = np.random.default_rng(0)
fs = [pm(rng, 6, 2), pm(rng, 5, 2)]
for model in ('AND-NXOR', 'NOR-NXOR'):
    m = lom.Machine()
    d = m.add_matrix(prod(fs, model), fixed=True)
    lr = quiet(m.add_layer, latent_size=2, child=d, model=model)
    assert np.array_equal(d.val, prod([f * (-1 if lr.invert_factors else 1) for f in fs], lr.model)), model
""")
b('c10-andnor-factors','C10',[(AU,"""    elif model_new == 'AND-NOR':
        model_new = 'OR-NAND'
        invert_data = True
        invert_factors = True""","""    elif model_new == 'AND-NOR':
        model_new = 'OR-NAND'
        invert_data = True""")],"the requested operator pair is AND-NOR or NOR-OR","the factors' inversion is not reported",
"""
rng = np.random.default_rng(0)
for model in ('AND-NOR', 'NOR-OR'):
    for _ in range(5):
        fs = [pm(rng, 6, 1), pm(rng, 5, 1)]
        m = lom.Machine()
        d = m.add_matrix(prod(fs, model), fixed=True)
        lr = quiet(m.add_layer, latent_size=1, child=d, model=model)
        assert np.array_equal(d.val, prod([f * (-1 if lr.invert_factors else 1) for f in fs], lr.model)), model
""")
b('c11-max-ignores-min','C11',[(MA,"            if (burn_in_iter + pre_burn_in_iter) > burn_in_max:","            if burn_in_iter > burn_in_max:")],
 "both a minimum and a maximum number of burn-in sweeps, no convergence","the minimum phase does not count towards the maximum number of burn-in sweeps",
"""
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 5, 5), 1, 'OR-AND')
n = [0]
import lom.matrix_update_wrappers as mw
f = lr.factors[0]
g = quiet(mw.get_sampling_fct, f)
def count(x):
    n[0] += 1
    g(x)
f.sampling_fct = count
quiet(m.infer, burn_in_min=10, burn_in_max=15, convergence_eps=-1., no_samples=2)
assert n[0] <= 17, n
""")
b('c11-half-skip','C11',[(AU,"    r2 = expit(np.mean(trace[l:]))","    r2 = expit(np.mean(trace[l + 1:]))")],
 "a trace whose first value after the half differs from the rest","the first value of the second half is ignored when convergence is judged",
"""
t = np.array([1., 1., 9., 1.])
assert not aux.check_convergence_single_trace(t, .01)
m, lr = machine(np.ones((4, 4)), 1, 'OR-AND')
lr.lbda.trace = np.array([1., 1., 9., 1.], dtype=np.float32)
assert not lr.lbda.check_convergence(.01)
""")
b('c11-any-lambda','C11',[(MA,"            return np.all(\n                [lib.check_convergence_single_trace","            return np.any(\n                [lib.check_convergence_single_trace")],
 "MAX-AND with some dispersions still moving when others have settled","burn-in ends as soon as one of the dispersions of a MAX-AND layer has converged",
"""
m, lr = machine(np.ones((4, 4)), 2, 'MAX-AND')
lr.lbda.trace = np.array([[.1, .5, .1], [.1, .5, .1], [.9, .5, .1], [.9, .5, .1]], dtype=np.float32)
assert not lr.lbda.check_convergence(.01)
""")
b('c12-lambda-before','C12',[(MA,"""            [lbda.sampling_fct(lbda) for lbda in lbdas]
            [lbda.update_trace() for lbda in lbdas]
""","""            [lbda.update_trace() for lbda in lbdas]
            [lbda.sampling_fct(lbda) for lbda in lbdas]
""")],"dispersions that still change while sampling","the dispersion trace lags one sweep behind",
"""
rng = np.random.default_rng(0)
fs = [pm(rng, 20, 2), pm(rng, 20, 2)]
m, lr = machine(prod(fs, 'OR-AND') * (2 * (rng.random((20, 20)) > .1) - 1), 2, 'OR-AND', fs)
lr.lbda.val = 1.
np.random.seed(0)
sweeps(m, 1)
assert lr.lbda.trace[-1] == np.float32(lr.lbda()), (lr.lbda.trace, lr.lbda())
""")
b('c12-reuse-trace','C12',[(MA,"""            self.trace = np.empty([no_of_samples] +
                                  [x for x in self.val.shape],
                                  dtype=self().dtype)
""","""            # reuse memory of an earlier trace
            if 'trace' not in self.__dict__ or\\
                    self.trace.shape[1:] != self.val.shape or\\
                    len(self.trace) < no_of_samples:
                self.trace = np.empty([no_of_samples] +
                                      [x for x in self.val.shape],
                                      dtype=self().dtype)
""")],"a second inference with fewer samples than the first","the traces keep old samples at their end",
"""
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 6, 5), 2, 'OR-AND')
sweeps(m, 9)
sweeps(m, 4)
assert len(lr.factors[0].trace) == 4 and len(lr.factors[1].trace) == 4
""")
b('c12-map-abs','C12',[(MA,"        self.val = np.array(self.mean() > 0, dtype=np.int8)","        self.val = np.array(self.mean() > -.5, dtype=np.int8)")],
 "entries that were on in between a quarter and half of the samples","set-to-MAP switches on entries that were mostly off",
"""
rng = np.random.default_rng(0)
m, lr = machine(np.zeros((30, 30)), 2, 'OR-AND')
f = lr.factors[0]
f.bernoulli_prior = .4
np.random.seed(0)
sweeps(m, 9)
mean = f.trace.mean(axis=0)
f.set_to_map()
assert np.array_equal(f.val, np.where(mean > 0, 1, -1))
""")
b('c13-prediction-noise','C13',[(MA,"""        self.prediction = out

        if reset_name_to_IBP is True:""","""        if self.prediction is None or noisy_emission is False:
            self.prediction = out

        if reset_name_to_IBP is True:""")],"a noisy output, computed after another output, that is requested lazily","lazy output returns an older computation",
"""
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 6, 5), 2, 'OR-AND')
sweeps(m, 5)
a = lr.output(technique='factor_mean')
b = lr.output(technique='factor_mean', noisy_emission=True)
c = quiet(lr.output, lazy=True)
assert np.array_equal(b, c)
""")
b('c13-noise-state','C13',[(MA,"                out = out * aux.expit(self.lbda.mean()) +\\\n                    (1 - out) * aux.expit(-self.lbda.mean())","                out = out * aux.expit(self.lbda()) +\\\n                    (1 - out) * aux.expit(-self.lbda())")],
 "noisy emission with a dispersion that varies between samples","emission noise uses the last dispersion instead of the mean",
"""
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 6, 5), 2, 'OR-AND')
np.random.seed(1)
sweeps(m, 7)
out = lr.output(technique='factor_map')
a = 1 / (1 + np.exp(-lr.lbda.trace.mean()))
got = lr.output(technique='factor_map', noisy_emission=True)
assert np.allclose(got, out * a + (1 - out) * (1 - a), atol=1e-6)
""")
b('c13-maxand-map-lambda','C13',[(MA,"""                out = lom_outputs_fuzzy.MAX_AND_product_fuzzy(
                    .5 * (self.z.mean() + 1),
                    .5 * (self.u.mean() + 1),
                    self.lbda.mean())""","""                out = lom_outputs_fuzzy.MAX_AND_product_fuzzy(
                    .5 * (self.z.mean() + 1),
                    .5 * (self.u.mean() + 1),
                    self.lbda())""")],"MAX-AND factor-mean output with dispersions that vary between samples","factor-mean output of MAX-AND uses the last dispersions instead of their means",
"""
rng = np.random.default_rng(0)
m, lr = machine(pm(rng, 6, 5), 1, 'MAX-AND')
np.random.seed(3)
sweeps(m, 7)
z, u = ((f.trace.mean(axis=0) + 1) / 2. for f in lr.factors)
a = lr.lbda.trace.mean(axis=0)
p = z[:, :1] * u[:, 0]
got = lr.output(technique='factor_mean')
assert np.allclose(got, p * a[0] + (1 - p) * a[1], atol=1e-5)
""")
b('c14-shared-lambda','C14',[(MA,"            lbda_init = np.array([.8 for i in range(latent_size + 1)])\n","            lbda_init = MAX_AND_INIT.setdefault(\n                latent_size, np.array([.8 for i in range(latent_size + 1)]))\n"),(MA,'__status__ = "Development"','__status__ = "Development"\n\nMAX_AND_INIT = {}  # initial dispersions by latent dimension')],
 "two MAX-AND machines of the same latent dimension in one process","MAX-AND machines share one array of dispersions",
"""
rng = np.random.default_rng(0)
X = pm(rng, 8, 7)
def one():
    np.random.seed(0)
    m, lr = machine(X, 2, 'MAX-AND')
    first = np.array(lr.lbda())
    sweeps(m, 3)
    return lr
a = one(); keep = np.array(a.lbda())
m, lr = machine(-X, 2, 'MAX-AND')
sweeps(m, 3)
assert np.array_equal(a.lbda(), keep)
""")
b('c14-set-order','C14',[(MA,("            [mat.sampling_fct(mat) for mat in np.random.permutation(mats)]\n\n            if np.any",1),"            [mat.sampling_fct(mat) for mat in np.random.permutation(\n                list(set(mats)))]\n\n            if np.any")],
 "the memory addresses of a machine's matrices being ordered differently (another process, other machines before)","the update order depends on object addresses",
"""
rng = np.random.default_rng(0)
X = pm(rng, 8, 7)
res = []
junk = []
for i in range(40):
    np.random.seed(0)
    m, lr = machine(X, 2, 'OR-AND')
    junk.append([object() for _ in range(i)] + [m])
    if i % 3 == 0:
        junk = []
    np.random.seed(1)
    sweeps(m, 6)
    res.append(lr.factors[0].trace.copy())
    lr.factors[0], lr.factors[1]
    # the order must not depend on addresses: swap the two factor objects
    np.random.seed(0)
assert all(np.array_equal(res[0], r) for r in res)
""")
b('c15-two-factors','C15',[(AU,"        if np.any([np.all(f()[:, l] == -1) for f in layer.factors]):","        if np.any([np.all(f()[:, l] == -1) for f in layer.factors[:2]]):")],
 "a 3D layer with a dimension switched off in the third factor only","useless dimensions of the third factor are kept",
"""
rng = np.random.default_rng(0)
m, lr = machine(np.ones((3, 4, 5)), 3, 'OR-AND', [pm(rng, 3, 3), pm(rng, 4, 3), pm(rng, 5, 3)])
for f in lr.factors:
    f.val[:] = [[1, -1, -1]] + [[-1, 1, -1]] + [[1, 1, 1]] + [[1, 1, -1]] * (len(f.val) - 3)
lr.factors[2].val[:, 1] = -1
assert quiet(aux.clean_up_codes, lr, False, True) is True
assert lr.size == 2
""")
b('c15-neighbours','C15',[(AU,"        while l_prime < layer.size:\n            if np.any","        while l_prime < min(l + 2, layer.size):\n            if np.any")],
 "identical latent dimensions that are not adjacent","only adjacent identical dimensions are found",
"""
Z = np.array([[1, -1, 1], [-1, 1, -1], [1, 1, 1], [-1, 1, -1]]); U = np.array([[1, -1, 1], [-1, 1, 1], [1, 1, -1]])
m, lr = machine(np.ones((4, 3)), 3, 'OR-AND', [Z, U])
assert quiet(aux.clean_up_codes, lr, False, True) is True
assert lr.size == 2
""")
b('c16-density','C16',[(EX,"    factor_density = d_f(density, L, 3)","    factor_density = d_f(density, L, len(set(dims)))")],
 "two or more equal dimensions","the density of the factors is computed for the number of distinct dimensions",
"""
np.random.seed(0)
d = [quiet(ex.generate_random_tensor, 3, [8, 8, 8], 0, .5)[1].mean() for _ in range(100)]
assert abs(np.mean(d) - .5) < .06, np.mean(d)
""")
b('c16-biased-carry','C16',[(AU,"            if X_intern[n, d] == 1:\n                p = p_plus\n","            if X_intern[n, d] == 1 and X_intern[n, d - 1] != 0:\n                p = p_plus\n")],
 "a positive entry right after a missing one","positive entries after a missing one are flipped with the probability last used",
"""
X = np.zeros((2000, 4), dtype=np.int8); X[:, 1] = 1; X[:, 3] = -1
Y = aux.add_bernoulli_noise_2d_biased(X, .0, 1., seed=1) if False else None
X[:, 0] = -1; X[:, 2] = 0; X[:, 1] = 0; X[:, 3] = 1
Y = aux.add_bernoulli_noise_2d_biased(X, 0., 1., seed=1)
assert (Y[:, 3] == 1).all() and (Y[:, 0] == 1).all()
""")
b('c16-balanced-replace','C16',[(EX,"n_idxs = np.random.choice(range(len(nz[0])), S, replace=False)","n_idxs = np.random.choice(range(len(nz[0])), S)")],
 "a balanced split","negatives are drawn with replacement: fewer negatives than positives are held out",
"""
rng = np.random.default_rng(0)
np.random.seed(0)
X = pm(rng, 12, 12)
T, mask = ex.split_train_test(X, split=.5, balanced=True)
assert (X[mask] == 1).sum() == (X[mask] == -1).sum()
""")
b('c16-roc-train','C16',[(AU,"    zero_idx = np.where(data_train == 0)","    zero_idx = np.where((data_train == 0) & (prediction != .5))")],
 "predictions of exactly one half among the held-out entries","undecided held-out entries are left out of the area under the curve",
"""
rng = np.random.default_rng(0)
X = pm(rng, 12, 12)
T = X.copy(); T[:6] = 0
P = rng.choice([.2, .5, .8], size=X.shape)
t, p = X[:6].ravel() == 1, P[:6].ravel()
want = np.mean([(a > b) + .5 * (a == b) for a in p[t] for b in p[~t]])
assert abs(aux.get_roc_auc(X, T, P) - want) < 1e-9
""")
b('c17-inv','C17',[(AU,"""    elif machine == 'XOR-OR':
        Inv = [False, True, True]""","""    elif machine == 'XOR-OR':
        Inv = [False, True, False]""")],"the operator pair XOR-OR at a density other than one half","the density of XOR-OR is computed as that of XOR-NAND",
"""
import itertools
f, L, K = .3, 2, 2
want = sum(np.prod([f if b == 1 else 1 - f for b in s]) * (prod([np.array([s[:2]]), np.array([s[2:]])], 'XOR-OR')[0, 0] == 1) for s in itertools.product([-1, 1], repeat=4))
assert abs(aux.expected_density('XOR-OR', L, K, f) - want) < 1e-9
""")
b('c17-exponent','C17',[(AU,"                   (1 - K * f * (invert(f))**(K - 1)) ** (L - 1))","                   (1 - L * f * (invert(f))**(K - 1)) ** (L - 1))")],
 "XOR-XOR or NXOR-XOR with a latent dimension different from the number of factors","the expected density mixes up latent dimension and number of factors",
"""
import itertools
f, L, K = .3, 3, 2
want = sum(np.prod([f if b == 1 else 1 - f for b in s]) * (prod([np.array([s[:3]]), np.array([s[3:]])], 'XOR-XOR')[0, 0] == 1) for s in itertools.product([-1, 1], repeat=6))
assert abs(aux.expected_density('XOR-XOR', L, K, f) - want) < 1e-9
""")
b('c18-threshold-u','C18',[(MU,"        if counter == q_d - 1:","        if counter >= q_d - 1:")],
 "qL-AND, a cell with at least q active dimensions besides the one that is updated","entries of the second factor are scored although the threshold is met without them",
"""
# three dimensions active, threshold one: the third entry makes no difference
N = 60
m, lr = machine(np.ones((N, 1)), 3, 'qL-AND', [np.ones((N, 3)), np.ones((1, 3))], 3.)
lr.factors[0].fixed = True
lr.factors[1].fixed_entries = np.array([[1, 1, 0]], dtype=np.int8)
lr.q.fixed = True
np.random.seed(0)
sweeps(m, 60)
p = (lr.factors[1].trace[:, 0, 2] == 1).mean()
assert .2 < p < .8, p
""")
b('c18-prior','C18',[(MU,"                gamma - lgamma(q_new + 2)","                gamma - lgamma(q_new + 1)")],
 "few observations, so that the prior on the thresholds matters","the thresholds' Poisson prior is that of the value minus one, up to scale",
"""
m, lr = machine(np.zeros((3, 4000)), 2, 'qL-AND')
np.random.seed(0)
sweeps(m, 5)
q = lr.q.trace.ravel()
w = np.array([1., 1 / 2., 1 / 6., 1 / 24., 1 / 120.]); w /= w.sum()
assert abs((q == 1).mean() - w[0]) < .03, ((q == 1).mean(), w[0])
""")
b('c18-q-missing','C18',[(MU,"                if X[n, d] == 0:  # unobserved\n                    continue\n","                if X[n, d] == 0 and q_new == 0:  # unobserved\n                    continue\n")],
 "qL-AND with missing data","missing entries count as false predictions for thresholds above one",
"""
m, lr = machine(np.zeros((30, 2000)), 2, 'qL-AND', lbda=1.)
np.random.seed(0)
sweeps(m, 5)
q = lr.q.trace.ravel()
w = np.array([1., 1 / 2., 1 / 6., 1 / 24., 1 / 120.]); w /= w.sum()
assert abs((q == 1).mean() - w[0]) < .03, ((q == 1).mean(), w[0])
""",others=['C09'])
b('c19-own-row','C19',[(MU,"        m = (Z[np.arange(N) != n, :] == 1).sum(axis=0)","        m = (Z == 1).sum(axis=0)")],
 "OR-AND-IBP","rows count their own entry among the other rows using a column",
"""
rng = np.random.default_rng(0)
import lom._numba.matrix_updates_numba as mu
np.random.seed(0)
on = n = 0
for _ in range(3000):
    Z = np.array([[1], [1]], dtype=np.int8); U = -np.ones((1, 1), dtype=np.int8)
    z, u = mu.sample_2d_IBP(Z.copy(), U.copy(), np.zeros((1, 1), dtype=np.int8)[[0, 0]], 1., .5, 1e-6)
    # each row keeps the column with probability 1/2: both rows on in a quarter of cases at most
    n += 1
    on += int(z.shape[1] == 1 and (z == 1).all())
assert on / n < .35, on / n
""")
b('c19-new-u','C19',[(MU,"            for l in list(range(L, L + L_new)):\n                for d in range(D):\n","            for l in list(range(L, L + L_new)):\n                for d in range(D - 1):\n")],
 "new columns in the IBP model","the last entry of new columns of the second factor is never drawn",
"""
import lom._numba.matrix_updates_numba as mu
np.random.seed(0)
last = 0
for _ in range(300):
    z, u = mu.sample_2d_IBP(np.array([[-1], [-1]], dtype=np.int8), -np.ones((3, 1), dtype=np.int8), np.ones((2, 3), dtype=np.int8), 3., .5, 3.)
    last += (u[2] == 1).sum()
assert last > 0
""")
b('c20-mean-of-v','C20',[(EX,("    f_tensorm = (layer.z.mean(), layer.u.mean(), layer.v.mean())\n\n    if return_layer",1),"    f_tensorm = (layer.z.mean(), layer.u.mean(), layer.v())\n\n    if return_layer")],
 "a third factor that is not certain","the third returned factor is the last state, not the mean",
"""
rng = np.random.default_rng(0)
np.random.seed(0)
X = pm(rng, 4, 4, 4)
layers = []
add = lom.Machine.add_layer
def spy(self, *a, **k):
    layers.append(add(self, *a, **k))
    return layers[-1]
lom.Machine.add_layer = spy
R, F, P = quiet(ex.tensorm_reconstruct, X, 2)
assert all(np.array_equal(f, g.trace.mean(axis=0)) for f, g in zip(F, layers[-1].factors))
""")
b('c20-coding','C20',[(EX,("    if np.all([y in [0, 1] for y in np.unique(X)]):",1),"    if 0 in np.unique(X):")],
 "a -1/1 tensor with missing entries, or a 0/1 tensor without any zero","tensors with missing entries are taken for 0/1 tensors",
"""
rng = np.random.default_rng(0)
X = pm(rng, 4, 4, 4); X[0, 0, 0] = 0
seen = []
add = lom.Machine.add_matrix
def spy(self, val=None, *a, **k):
    seen.append(np.array(val))
    return add(self, val, *a, **k)
lom.Machine.add_matrix = spy
quiet(ex.tensorm_reconstruct, X, 2)
assert np.array_equal(seen[0], X)
""")
if __name__=='__main__':
    sel=sys.argv[1:]
    import concurrent.futures as cf
    todo=[(a,k) for a,k in B if not sel or a[0] in sel]
    def go(x):
        try: plant(*x[0],**x[1])
        except Exception as e: print(x[0][0],'EXC',repr(e)[:300],flush=True)
    with cf.ThreadPoolExecutor(2) as e: list(e.map(go,todo))
