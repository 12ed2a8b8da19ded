import math
import sys
import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api

PROPERTY = 'C26'
RULE = ('one case = one kind of helper (logistic functions; binomial and beta-binomial ratios; MAX-AND forward pass; coding and random matrices; '
        'ordered lists; data frames) called with random and extreme arguments, results compared with values computed from the definition '
        '(math module, exact rationals, loops over cells and labels). Distinct non-trivial = distinct arguments.')
REQUIRED = {'logistic': 1500, 'extreme': 300, 'logsumexp': 200, 'binomial': 200, 'padded': 60, 'beta_binomial': 200, 'unit_beta': 20, 'forward_cells': 2500, 'forward_ties': 20,
            'coded': 150, 'random_matrices': 8, 'unique': 150, 'centers': 100, 'frames': 30, 'overlapping_frames': 20, 'long_lists': 10, 'without_scipy': 200}


def cases(tier, seed):
    return [{'kind': k, 'seed': [seed, r]} for r in range(2 if tier == 'quick' else 30) for k in ('logistic', 'ratios', 'forward', 'coding', 'lists', 'frames')]


def near(a, b, tol=1e-9):
    return a == b or abs(a - b) <= tol * (1 + abs(b))


def run(case, obs):
    rng = util.rng_of('c26', case)
    import lom.auxiliary_functions as aux
    globals()['do_' + case['kind']](rng, obs, aux)


def do_logistic(rng, obs, aux):
    logistic(rng, obs, aux, 120, '')
    # without the optional dependency (scalars for the logit)
    hidden = {k: sys.modules.get(k) for k in ('scipy', 'scipy.special')}
    try:
        sys.modules.update({k: None for k in hidden})
        logistic(rng, obs, aux, 60, ' (without scipy)')
    finally:
        for k, v in hidden.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def logistic(rng, obs, aux, times, label):
    plain = bool(label)
    for i in range(times):
        x = [float(v) for v in np.concatenate([rng.normal(size=3) * 3, rng.choice([-1, 1], size=2) * rng.uniform(20, 700, size=2), [0., float(rng.choice([-1e4, 1e4, 40, -40, 1e-9]))]])]
        with Api('expit'), np.errstate(all='ignore'):
            whole = np.asarray(aux.expit(np.array(x)), dtype=float)
            single = [float(aux.expit(v)) for v in x]
        for v, a, b in zip(x, whole, single):
            e = 1 / (1 + math.exp(-v)) if v > -700 else 0.
            for g in (a, b):
                obs.ok(abs(g - e) <= 1e-12 + 1e-9 * e, 'expit', 'expit(%r)%s = %r, expected %r' % (v, label, g, e))
            obs.count('logistic')
            obs.count('extreme', abs(v) > 36)
            obs.saw('expit', v)
        p = [float(v) for v in np.concatenate([rng.random(3), [.5, 10. ** -float(rng.integers(1, 12))]])]
        with Api('logit'):
            whole = np.asarray([aux.logit(v) for v in np.array(p)] if plain else aux.logit(np.array(p)), dtype=float)
            single = [float(aux.logit(v)) for v in p]
        for v, a, b in zip(p, whole, single):
            e = math.log(v) - math.log1p(-v)
            for g in (a, b):
                obs.ok(near(g, e), 'logit', 'logit(%r)%s = %r, expected %r' % (v, label, g, e))
            obs.count('logistic')
            obs.saw('logit', v)
            obs.count('without_scipy', plain)
        n = int(rng.choice([1, 2, 3, 10, 400]))
        a = rng.normal(size=n) * float(rng.choice([1, 30, 1000])) + float(rng.choice([0, -5000, 5000]))
        if n > 2 and rng.random() < .3:
            a[int(rng.integers(n))] = -np.inf
        keep = a.copy()
        with Api('logsumexp'):
            g = float(aux.logsumexp(a))
        m = max(a)
        e = m + math.log(math.fsum(math.exp(v - m) for v in a))
        obs.ok(near(g, e), 'logsumexp', 'logsumexp of %d values with maximum %r%s = %r, expected %r' % (n, m, label, g, e))
        obs.ok(np.array_equal(a, keep), 'purity', 'logsumexp changed its argument')
        obs.count('logsumexp')
        obs.saw('logsumexp', core.digest(a))
    obs.sample = {'expit': [x[0], single[0]], 'logsumexp': [n, g]}


def do_ratios(rng, obs, aux):
    """log of P(k+1)/P(k) of the number k of successes"""
    lb = lambda n, k: math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1)
    lbeta = lambda a, b: math.lgamma(a) + math.lgamma(b) - math.lgamma(a + b)
    for i in range(130):
        n = int(rng.choice([1, 2, 3, 5, 8, 20, 90]))
        q = float(rng.choice([.5, rng.uniform(.01, .99), 1e-3]))
        N = n if rng.random() < .5 else n + int(rng.integers(1, 6))
        with Api('compute_bp(%g, %d, %d)' % (q, n, N)):
            g = np.asarray(aux.compute_bp(q, n, N), dtype=float)
        lp = [lb(n, k) + k * math.log(q) + (n - k) * math.log1p(-q) for k in range(n + 1)]
        e = [lp[k + 1] - lp[k] for k in range(n)] + [-np.inf] * (N - n)
        obs.ok(g.shape == (N,), 'length', 'compute_bp(%g, %d, %d) has shape %s' % (q, n, N, g.shape))
        bad = [k for k in range(N) if not near(g[k], e[k], 1e-8)]
        obs.ok(not bad, 'binomial', lambda: 'compute_bp(%g, %d, %d)[%d] = %r, expected %r' % (q, n, N, bad[0], g[bad[0]], e[bad[0]]))
        obs.count('binomial')
        obs.count('padded', N > n)
        obs.saw('bp', q, n, N)
        a, b = [float(v) for v in rng.choice([1, 2, .5, 10, rng.uniform(.1, 5)], size=2)]
        with Api('compute_bbp(%d, %g, %g)' % (n, a, b)):
            g = np.asarray(aux.compute_bbp(n, a, b), dtype=float)
        lp = [lb(n, k) + lbeta(k + a, n - k + b) - lbeta(a, b) for k in range(n + 1)]
        e = [lp[k + 1] - lp[k] for k in range(n)] + [-np.inf]
        obs.ok(g.shape == (n + 1,), 'length', 'compute_bbp(%d, %g, %g) has shape %s' % (n, a, b, g.shape))
        bad = [k for k in range(n + 1) if not near(g[k], e[k], 1e-8)]
        obs.ok(not bad, 'beta_binomial', lambda: 'compute_bbp(%d, %g, %g)[%d] = %r, expected %r' % (n, a, b, bad[0], g[bad[0]], e[bad[0]]))
        obs.count('beta_binomial')
        obs.count('unit_beta', b == 1)
        obs.saw('bbp', n, a, b)
    obs.sample = {'n': n, 'a': a, 'b': b, 'ratios': g[:4].tolist()}


def do_forward(rng, obs, aux):
    from lom._numba.max_machine_sampler import maxmachine_forward_pass
    for i in range(90):
        N, D, L = [int(v) for v in rng.integers(1, 9, size=3)]
        if i == 0:
            N, D, L = 30, 25, 140
        kind = [np.int8, float, np.int64][int(rng.integers(3))]
        z, u = [(rng.random((n, L)) < rng.choice([.2, .5, .05])).astype(kind) for n in (N, D)]
        al = rng.uniform(.01, 1, size=L + 1)
        if L > 1 and rng.random() < .4:
            al[1] = al[0]
            obs.count('forward_ties')
        al[-1] = float(rng.choice([.01, .5 * al.min(), .3]))
        keep = core.digest(z, u, al)
        with Api('maxmachine_forward_pass'):
            g = np.asarray(maxmachine_forward_pass(u, z, al), dtype=float)
        obs.ok(g.shape == (N, D), 'shape', lambda: 'forward pass of %d x %d has shape %s' % (N, D, g.shape))
        e = np.full((N, D), al[-1])
        for n in range(N):
            for d in range(D):
                act = [al[l] for l in range(L) if z[n, l] == 1 and u[d, l] == 1]
                if act:
                    e[n, d] = max(act)
        obs.ok(bool(np.allclose(g, e, rtol=0, atol=1e-9)), 'forward', lambda: 'forward pass (L=%d, dispersions %s): %s' % (L, al.tolist()[:6], util.diff_at(g, e)), n=N * D)
        obs.ok(keep == core.digest(z, u, al), 'purity', 'forward pass changed its arguments')
        obs.count('forward_cells', N * D)
        obs.saw('forward', keep)
    obs.sample = {'shape': [N, D, L], 'dispersions': al.tolist()[:4]}


def do_coding(rng, obs, aux):
    for i in range(110):
        K = int(rng.choice([1, 2, 2, 3]))
        shape = util.dims(rng, K, 1, 7)
        B = util.pm(rng, shape, rng.choice([.5, .1, 1., 0.]))
        form = int(rng.integers(5))
        if form < 2:        # already in {-1,1} (perhaps with missing entries)
            X = B.astype([np.int8, np.int64, float][int(rng.integers(3))])
            if -1 in X and rng.random() < .3:
                free = np.argwhere(X == 1)
                for r in free[:len(free) // 2]:
                    X[tuple(r)] = 0
            e = X if -1 in X else 2 * X - 1
        else:
            X = (B == 1).astype([bool, np.uint8, float, np.int64][int(rng.integers(4))])
            e = B
        keep = X.copy()
        with Api('check_binary_coding'):
            g = np.asarray(aux.check_binary_coding(X))
        obs.ok(g.dtype == np.int8 and np.array_equal(g, e), 'coding', lambda: 'check_binary_coding of %s %s with values %s: %s' % (X.dtype, X.shape, np.unique(X), util.diff_at(g, e)))
        obs.ok(np.array_equal(X, keep) and X.dtype == keep.dtype, 'purity', 'check_binary_coding changed its argument')
        obs.count('coded')
        obs.saw('coding', core.digest(X))
    for p in (0., 1., .5, float(rng.uniform(.02, .98)), float(rng.uniform(.02, .2))):
        shape = [(300, 60), (40, 50, 9)][int(rng.integers(2))]
        np.random.seed(int(rng.integers(2 ** 31)))
        with Api('random_machine_matrix'):
            M = np.asarray(aux.random_machine_matrix(p, shape))
        obs.ok(M.shape == shape and M.dtype == np.int8 and set(np.unique(M)) <= {-1, 1}, 'random', lambda: 'random_machine_matrix: %s %s %s' % (M.shape, M.dtype, np.unique(M)))
        for part, what in ((M, 'entries'), (M[0], 'entries of the first row'), (M[-1], 'entries of the last row'), (M[M.shape[0] // 2:], 'entries of the second half'), (M[..., -1], 'entries of the last column')):
            z = ((part == 1).sum() - part.size * p) / max(1e-9, math.sqrt(part.size * p * (1 - p)))
            obs.ok(abs(z) < 7, 'random', lambda: 'random_machine_matrix(%g): %d of %d %s on (z=%.1f)' % (p, (part == 1).sum(), part.size, what, z))
        obs.ok(p in (0., 1.) or not np.array_equal(M[0], M[1]), 'random', 'random_machine_matrix repeats its rows')
        obs.count('random_matrices')
    obs.sample = {'shape': list(shape), 'p': p}


def do_lists(rng, obs, aux):
    pools = [list(range(12)), list('abcdefgh'), [0, 1, '1', 2.5, '2.5', 'x', (1, 2), None, 'None', '', -1, -2]]
    for i in range(110):
        pool = pools[int(rng.integers(len(pools)))]
        seq = [pool[int(rng.integers(len(pool)))] for _ in range(int(rng.choice([0, 1, 5, 20, 300])))]
        keep = list(seq)
        with Api('unique_ordered'):
            g = list(aux.unique_ordered(seq))
        e = [x for k, x in enumerate(seq) if x not in seq[:k]]
        obs.ok(g == e, 'unique', lambda: 'unique_ordered(%s...) = %s, expected %s' % (seq[:12], g, e))
        obs.ok(seq == keep, 'purity', 'unique_ordered changed its argument')
        obs.count('unique')
        obs.saw('unique', repr(seq))
        labels = [pool[k] for k in rng.permutation(min(8, len(pool)))[:int(rng.integers(1, 7))]] if pool is not pools[2] else ['u', 'v', 'w']
        runs = [int(v) for v in rng.choice([1, 2, 3, 4, 9, 60], size=len(labels))]
        ls = [l for l, r in zip(labels, runs) for _ in range(r)]
        with Api('find_centers_of_ordered_list'):
            g = list(aux.find_centers_of_ordered_list(np.array(ls)))
        ends = np.cumsum(runs)
        c = [end - r + (r - 1) / 2. for end, r in zip(ends, runs)]
        obs.ok(len(g) == len(c) and all(float(a) == int(a) and abs(a - b) <= .5 for a, b in zip(g, c)), 'centers', lambda: 'centres of blocks of lengths %s: %s, expected %s' % (runs, g, c))
        obs.count('centers')
        obs.count('long_lists', len(ls) > 60)
        obs.saw('centers', labels, runs)
    obs.sample = {'labels': [str(l) for l in labels], 'lengths': runs, 'centres': [int(a) for a in g]}


def do_frames(rng, obs, aux):
    import pandas as pd
    for i in range(50):
        rows, cols = ['r%d' % k for k in range(12)], ['c%d' % k for k in range(9)]
        if rng.random() < .4:
            rows = list(range(12))
        if rng.random() < .3:
            cols = list(range(9))
        fr = []
        for k in range(2):
            r = [rows[j] for j in rng.permutation(12)[:int(rng.integers(1, 13))]]
            c = [cols[j] for j in rng.permutation(9)[:int(rng.integers(1, 10))]]
            fr.append(pd.DataFrame(rng.integers(0, 1000, size=(len(r), len(c))), index=r, columns=c))
        A, B = fr
        keep = A.copy(), B.copy()
        jr, jc = set(A.index) & set(B.index), set(A.columns) & set(B.columns)
        if not jr or not jc:
            continue
        with Api('intersect_dataframes'):
            a, b = aux.intersect_dataframes(A, B)
        for g, src, name in ((a, keep[0], 'first'), (b, keep[1], 'second')):
            obs.ok(set(g.index) == jr and len(g.index) == len(jr), 'rows', lambda: 'rows of the %s frame: %s, shared %s' % (name, list(g.index), jr))
            obs.ok(set(g.columns) == jc and len(g.columns) == len(jc), 'columns', lambda: 'columns of the %s frame: %s, shared %s' % (name, list(g.columns), jc))
            bad = [(r, c) for r in g.index for c in g.columns if g.loc[r, c] != src.loc[r, c]]
            obs.ok(not bad, 'values', lambda: 'cell %s of the %s frame is %s, was %s' % (bad[0], name, g.loc[bad[0]], src.loc[bad[0]]))
        obs.ok(list(a.index) == list(b.index) == sorted(jr) and list(a.columns) == list(b.columns), 'order', lambda: 'frames are ordered differently: %s, %s' % (list(a.index), list(b.index)))
        obs.ok(A.equals(keep[0]) and B.equals(keep[1]), 'purity', 'intersect_dataframes changed its arguments')
        obs.count('frames')
        obs.count('overlapping_frames', len(jr) < max(len(A), len(B)))
        obs.saw('frames', repr(A.values.tolist()))
    obs.sample = {'rows': [str(r) for r in a.index], 'columns': [str(c) for c in a.columns]}
