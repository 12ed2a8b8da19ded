from plantlib import *
import sys
B=[]
def b(*a,**k): B.append((a,k))
PF='_numba/posterior_score_fcts.py'; LO='_numba/lom_outputs.py'; MU='_numba/matrix_updates_numba.py'; LU='_numba/lambda_updates_numba.py'; MM='_numba/max_machine_sampler.py'
AU='auxiliary_functions.py'; MA='machine.py'

b('c16-orm-containment','C16',[(AU,"                       for i, j in list(itertools.permutations(range(L), 2))])","                       for i, j in itertools.combinations(range(L), 2)])")],
"a column contained in an earlier one (few rows)","only one direction of containment is rejected","""
np.random.seed(3)
for t in range(300):
    U, Z, X = aux.generate_orm_product(6, 6, 3)
    for f in (U, Z):
        a = f == 1
        for i in range(3):
            for j in range(3):
                assert i == j or (a[:, i] & ~a[:, j]).any(), (t, i, j, a.astype(int))
    assert (X == prod([Z, U], 'OR-AND')).all()
""")
b('c17-tolerance','C17',[(AU,"    if np.abs(func(best_solution)) > 1e-6:","    if np.abs(func(best_solution)) > 5e-3:")],
"a wanted density slightly beyond the attainable ones","a factor density is returned although none attains the wanted one","""
import io as _io
def solve(*a):
    s = _io.StringIO()
    with contextlib.redirect_stdout(s):
        f = aux.factor_density(*a)
    return f, 'not exist' in s.getvalue()
for model in ('OR-AND', 'XOR-AND', 'OR-XOR', 'XOR-XOR'):
    v = [aux.expected_density(model, 3, 2, f) for f in np.linspace(0, 1, 2001)]
    for X in (max(v) + 2e-3, max(v) - .05, .2):
        if X >= 1:
            continue
        f, failed = solve(model, 3, 2, X)
        assert failed or abs(aux.expected_density(model, 3, 2, f) - X) < 1e-5, (model, X, f)
""")
b('c19-byte-count','C19',[(MU,"        FN = ((X[n, :] == 1) * (np.array(n_predict) == -1)).sum()","        FN = ((X[n, :] == 1) * (np.array(n_predict) == -1)).sum(dtype=np.uint8)")],
"a row with more than 255 active cells that no column explains","the count wraps around and no column is opened","""
for k in (40, 262):
    for s in range(4):
        np.random.seed(s)
        D = k + 48
        X = np.array([[1] * k + [-1] * (D - k)] * 3, dtype=np.int8)
        m, lr = machine(X, 1, 'OR-AND-IBP', [-np.ones((3, 1)), -np.ones((D, 1))], 4.)
        lr.alpha = 1.
        sweeps(m, 1)
        assert (lr.factors[0].val == 1).any(axis=1).all() or k < 48, (k, s, lr.factors[0].val)
""")
b('c07-remaining-16','C07',[(MM,"    P_remain = np.count_nonzero(x()[~mask] == 1)","    P_remain = int((x()[~mask] == 1).sum(dtype=np.int16))")],
"more than 32767 active cells that no dimension covers","the count of remaining active cells wraps around and the last dispersion becomes wrong","""
rng = np.random.default_rng(0)
for n in (20, 200):
    X = np.where(rng.random((n, n)) < .9, 1, -1)
    Z, U = -np.ones((n, 1)), -np.ones((n, 1))
    Z[:4] = U[:4] = 1
    X[:4, :4] = 1
    m, lr = machine(X, 1, 'MAX-AND', [Z, U])
    for f in lr.factors:
        f.fixed = True
    sweeps(m, 1)
    rest = (X == 1).sum() - 16
    e = (rest + 1.) / (n * n - 16 + 2)
    assert abs(np.asarray(lr.lbda())[-1] - e) < .01, (n, lr.lbda(), e)
""")
b('c18-small-count','C18',[(MU,"            true_predictions = 0\n            false_predictions = 0\n","            true_predictions, false_predictions = np.zeros(2, dtype=np.int8)\n")],
"columns with more than 127 observed cells","counts wrap around and unlikely thresholds are drawn","""
rng = np.random.default_rng(1)
for n in (60, 600):
    Z, U = pm(rng, n, 4), np.ones((2, 4))
    c = (Z == 1).sum(axis=1)
    X = np.where(c >= 3, 1, -1)
    X[:n * 2 // 5] = np.where(c[:n * 2 // 5] >= 1, 1, -1)
    X = np.stack([X, X], axis=1)
    m, lr = machine(X, 4, 'qL-AND', [Z, U], 20.)
    for f in lr.factors:
        f.fixed = True
    sweeps(m, 5)
    assert (np.asarray(lr.q.trace) == 3).all(), (n, np.unique(lr.q.trace))
""")
b('c03-xorand3d-early','C03',[(PF,"                    num_active += 1\n","                    num_active += 1\n")],"","","") if 0 else None
b('c01-ornand3d-deep','C01',[(LO,"    for l in range(u.shape[0]):\n        if (u[l] == -1) or (z[l] == -1) or (v[l] == -1):\n            return 1\n    return -1","    on = (u + z + v)[:255].sum()\n    return -1 if on == 3 * min(u.shape[0], 255) else 1")],
"more than 255 latent dimensions, the only inactive entries beyond them (or sums that wrap)","dimensions beyond the 255th are ignored","""
for L in (3, 40, 300):
    for l in (0, L - 1):
        fs = [np.ones((2, L), dtype=np.int8) for _ in range(3)]
        fs[1][0, l] = -1
        X = np.asarray(quiet(aux.lom_generate_data_fast, fs, 'OR-NAND'))
        assert (X == prod(fs, 'OR-NAND')).all(), (L, l)
""")

if __name__=='__main__':
    for a,k in B:
        if len(sys.argv)<2 or a[0] in sys.argv[1:]: plant(*a,**k)
