import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.world import both_ways

PROPERTY = 'C16'
RULE = ('cases: the three noise functions (probabilities 0, 1 and between, seeds, missing entries, statistics per cell, per sign and of '
        'the number of flips), four hold-out splits (any density and missingness), random tensors (product, noise, requested density), random Boolean products, '
        'AUC against all-pairs counting. Inputs are digested around every call. Distinct non-trivial = distinct inputs and outcomes.')
REQUIRED = {'pairs_of_entries': 1000000, 'noise_calls': 2000, 'flips': 5000, 'statistics': 40, 'seed_pairs': 100, 'seed_zero': 8, 'splits': 400, 'high_splits': 30, 'boolean_products': 150, 'several_columns': 90, 'held_out': 4000, 'balanced': 100,
            'tensors': 100, 'aucs': 110, 'auc_missing': 100, 'missing_kept': 2000, 'extreme_probabilities': 30, 'large': 20, 'views': 10, 'large_auc_missing': 4}


def cases(tier, seed):
    out = []
    for r in range(5 if tier == 'quick' else 60):
        for k in ('noise', 'biased', 'noise3', 'split', 'tensor', 'auc', 'orm'):
            out.append({'kind': k, 'seed': [seed, r]})
    return out


def check_call(obs, what, X, keep, Y):
    Y = np.asarray(Y)
    obs.ok(np.array_equal(X, keep) and X.dtype == keep.dtype, 'input', what + ' changed its input')
    obs.ok(Y.shape == keep.shape, 'shape', '%s: shape %s' % (what, Y.shape))
    obs.ok(Y is not X and not np.shares_memory(Y, X), 'copy', what + ' does not return a copy')
    return Y


def binom_ok(obs, k, n, p, what):
    """number of successes, |z| <= 6.5 (and exact for p in {0,1})"""
    if n == 0:
        return
    v = n * p * (1 - p)
    if v == 0:
        obs.ok(k == n * p, 'probability', '%s: %d of %d flipped with probability %g' % (what, k, n, p))
    else:
        z = (k - n * p) / np.sqrt(v)
        obs.ok(abs(z) <= 6.5 or abs(k - n * p) <= 6, 'probability', '%s: %d of %d flipped with probability %g (z=%.1f)' % (what, k, n, p, z))


def pairwise(obs, what, F, p):
    """F: calls x entries; every two entries flip together as often as independent ones, so do successive calls"""
    R = len(F)
    both = F.T.astype(int) @ F.astype(int) + (~F).T.astype(int) @ (~F).astype(int)
    succ = (F[:R // 2 * 2:2] == F[1::2]).sum(0)
    ix = [i for i in range(len(p)) if 0 < p[i] < 1]
    for n, i in enumerate(ix):
        for j in ix[:n]:
            q = p[i] * p[j] + (1 - p[i]) * (1 - p[j])
            obs.ok(both_ways(int(both[i, j]), R, q) > 1e-10, 'independence', lambda: '%s: two entries share their fate in %d of %d calls, expected %.1f' % (what, both[i, j], R, R * q))
        obs.ok(both_ways(int(succ[i]), R // 2, p[i] ** 2 + (1 - p[i]) ** 2) > 1e-10, 'independence', lambda: '%s: an entry fares alike in two successive calls %d of %d times' % (what, succ[i], R // 2))
    obs.count('pairs_of_entries', len(ix) * (len(ix) - 1) // 2)


def all_pairs(obs, rng, what, call, X, p):
    """every two of up to 2000 entries, over 80 calls"""
    F = []
    for i in range(80):
        np.random.seed(int(rng.integers(1 << 31)))
        with Api(what):
            F.append((np.asarray(call()) != X).ravel())
    F, p, R = np.array(F), np.broadcast_to(p, X.shape).ravel(), len(F)
    ix = np.flatnonzero(p > 0)
    f = F[:, ix].astype(np.float32)
    same = (f.T @ f + (1 - f).T @ (1 - f)) / R
    q = p[ix][:, None] * p[ix] + (1 - p[ix][:, None]) * (1 - p[ix])
    with np.errstate(divide='ignore', invalid='ignore'):
        d = np.nan_to_num(same * np.log(same / q)) + np.nan_to_num((1 - same) * np.log((1 - same) / (1 - q)))
    np.fill_diagonal(d, 0)
    a, b = np.unravel_index(int(np.argmax(d)), d.shape)
    obs.ok(d[a, b] * R < 35, 'independence', lambda: '%s: entries %d and %d share their fate in %d of %d calls, expected %.1f' % (
        what, ix[a], ix[b], round(same[a, b] * R), R, q[a, b] * R))
    obs.count('pairs_of_entries', len(ix) * (len(ix) - 1) // 2)


def noise(case, obs, rng, biased):
    import lom.auxiliary_functions as aux
    shape = [(40, 50), (1, 1100), (1100, 2), (300, 5), (20, 20)][case['seed'][-1] % 5]
    X = util.data(rng, shape, .5, rng.choice([0, .2]))
    if biased:
        all_pairs(obs, rng, 'add_bernoulli_noise_2d_biased(%s)' % list(shape), lambda: aux.add_bernoulli_noise_2d_biased(X, .5, .4), X, np.array([0, .5, .4])[X])
    else:
        all_pairs(obs, rng, 'add_bernoulli_noise_2d(%s)' % list(shape), lambda: aux.add_bernoulli_noise_2d(X, .4), X, .4 * (X != 0))
    for trial in range(12):
        shape = util.dims(rng, 2, 1, 9)
        miss = float(rng.choice([0, .3]))
        X = util.data(rng, shape, rng.choice([.2, .5, .8]), miss)
        R = 60
        if trial in (0, 1):
            shape = [(40, 50), (1, 1100), (1100, 2), (300, 5)][int(rng.integers(4))]
            X = util.data(rng, shape, rng.choice([.2, .5, .8]), miss)
            R = 12
            obs.count('large')
        if rng.random() < .3:
            X = X.astype([np.int64, float][int(rng.integers(2))])
        if rng.random() < .3:
            X = np.asfortranarray(X)
        if rng.random() < .2:
            X = np.repeat(X, 2, axis=0)[::2]
        pp, pm = [float(x) for x in rng.choice([0, 1, .05, .3, .5, .9], 2)]
        if not biased:
            pm = pp
        obs.count('extreme_probabilities', pp in (0, 1) or pm in (0, 1))
        what = 'add_bernoulli_noise_2d%s(%s, p=%g/%g)' % ('_biased' if biased else '', list(shape), pp, pm)

        def call(seed=None):
            keep = X.copy()
            with Api(what):
                kw = {} if seed is None else {'seed': seed}
                Y = aux.add_bernoulli_noise_2d_biased(X, pp, pm, **kw) if biased else aux.add_bernoulli_noise_2d(X, pp, **kw)
            Y = check_call(obs, what, X, keep, Y)
            obs.count('noise_calls')
            obs.ok(bool((np.abs(Y) == np.abs(X)).all()), 'values', lambda: what + ': changed entries other than by sign, or missing entries')
            obs.count('missing_kept', int((X == 0).sum()))
            obs.count('flips', int((Y != X).sum()))
            return Y
        runs = []
        for i in range(R):
            np.random.seed(int(rng.integers(1 << 31)))
            runs.append(call() != X)
        F = np.stack(runs)
        for sgn, p in ((1, pp), (-1, pm)):
            cells = X == sgn
            binom_ok(obs, int(F[:, cells].sum()), int(R * cells.sum()), p, what + ', entries %+d' % sgn)
            for c in np.argwhere(cells)[:20]:
                binom_ok(obs, int(F[:, c[0], c[1]].sum()), R, p, what + ', single cell %s' % c)
        obs.count('statistics')
        # independence of neighbours: number of pairs flipped together
        for sgn, p in ((1, pp), (-1, pm)):
            idx = np.argwhere(X == sgn)
            if len(idx) > 1 and 0 < p < 1:
                a, b = idx[:-1], idx[1:]
                both = (F[:, a[:, 0], a[:, 1]] == F[:, b[:, 0], b[:, 1]])
                m = both.size
                q = p * p + (1 - p) * (1 - p)
                sd = np.sqrt(m * q * (1 - q) * 3 + 1)     # neighbouring pairs overlap
                obs.ok(abs(both.sum() - m * q) < 8 * sd, 'independence', '%s: neighbouring entries agree %d times of %d, expected %.0f' % (what, both.sum(), m, m * q))
        # pairs of arbitrary entries, and successive calls
        idx = np.argwhere(X != 0)
        idx = idx[rng.permutation(len(idx))[:60 if len(idx) > 100 else 40]]
        pairwise(obs, what, F[:, idx[:, 0], idx[:, 1]], np.where(X[idx[:, 0], idx[:, 1]] == 1, pp, pm))
        # seeds
        s = int(rng.integers(1 << 20)) if rng.random() < .6 else int(rng.choice([0, 0, 1, (1 << 32) - 100]))
        obs.count('seed_zero', s == 0)
        np.random.seed(1)
        a = call(s)
        np.random.rand(int(rng.integers(9)))
        b = call(s)
        obs.ok(np.array_equal(a, b), 'seed', what + ': the same seed gives different results')
        obs.count('seed_pairs')
        if 0 < pp < 1 and (pp == pm) and (X != 0).sum() * min(pp, 1 - pp) > 3:
            others = [call(s + 1 + k) for k in range(12)]
            obs.ok(any(not np.array_equal(a, o) for o in others), 'seed', what + ': 13 different seeds give one result')
            ys = []
            for k in range(12):
                np.random.seed(k)
                ys.append(call())
            obs.ok(any(not np.array_equal(ys[0], y) for y in ys), 'seed', what + ': without seed, the result does not depend on the random state')
        obs.saw(case['kind'], core.digest(X), pp, pm, core.digest(a))
    obs.sample = {'kind': case['kind'], 'shape': list(shape), 'p': [pp, pm], 'flipped_fraction': float(F.mean())}


def noise3(case, obs, rng):
    import lom.auxiliary_functions as aux
    shape = [(12, 10, 11), (1, 600, 2), (300, 2, 2), (3, 2, 300), (4, 4, 5)][case['seed'][-1] % 5]
    X = rng.random(shape) < .5
    all_pairs(obs, rng, 'add_bernoulli_noise(%s)' % list(shape), lambda: aux.add_bernoulli_noise(X, .4), X, .4)
    for trial in range(12):
        shape = util.dims(rng, 3, 1, 6)
        if trial == 0:
            shape = [(12, 10, 11), (1, 1100, 2), (300, 2, 2), (3, 2, 300)][int(rng.integers(4))]
            obs.count('large')
        X = rng.random(shape) < rng.choice([.1, .5, .9])
        p = float(rng.choice([0, 1, .1, .5, .8]))
        obs.count('extreme_probabilities', p in (0, 1))
        what = 'add_bernoulli_noise(%s, p=%g)' % (list(shape), p)
        F = []
        for i in range(30):
            np.random.seed(int(rng.integers(1 << 31)))
            keep = X.copy()
            with Api(what):
                Y = aux.add_bernoulli_noise(X, p)
            Y = check_call(obs, what, X, keep, Y)
            obs.ok(Y.dtype == bool, 'type', what + ': type %s' % Y.dtype)
            obs.count('noise_calls')
            F.append(Y != X)
        F = np.stack(F)
        obs.count('flips', int(F.sum()))
        for v in (True, False):
            binom_ok(obs, int(F[:, X == v].sum()), int(30 * (X == v).sum()), p, what + ', entries %s' % v)
        cells = F.sum(axis=0).ravel()
        pairwise(obs, what, F.reshape(len(F), -1)[:, rng.permutation(X.size)[:40]], np.repeat(p, min(X.size, 40)))
        for c in cells[:30]:
            binom_ok(obs, int(c), 30, p, what + ', single cell')
        obs.count('statistics')
        np.random.seed(5)
        with Api(what):
            a = aux.add_bernoulli_noise(X, p)
            np.random.seed(5)
            b = aux.add_bernoulli_noise(X, p)
        obs.ok(np.array_equal(a, b), 'seed', what + ': not determined by the random state')
        obs.count('seed_pairs')
        obs.saw('noise3', core.digest(X), p, core.digest(a))
    obs.sample = {'kind': 'noise3', 'shape': list(shape), 'p': p, 'flipped_fraction': float(F.mean())}


def split(case, obs, rng):
    import lom.auxiliary_functions as aux
    import lom.experiments as ex
    frac = []
    for trial in range(40):
        K = int(rng.integers(2, 4))
        shape = util.dims(rng, K, 2, 9 if K == 2 else 5)
        if trial in (0, 1):
            shape = [(50, 40), (1100, 2), (2, 600), (12, 10, 11), (2, 300, 2)][int(rng.integers(5))]
            K = len(shape)
            obs.count('large')
        X = util.data(rng, shape, rng.choice([.2, .5, .8]), rng.choice([0, 0, .3]))
        if trial == 2:
            X = np.asfortranarray(X)
        whole = None
        if trial in (3, 4, 5):          # a view into somebody else's array
            pad = [(0, 0)] * K
            pad[trial % K] = (1, 2)
            whole = np.pad(X, pad, mode='constant', constant_values=1)
            X = whole[tuple(slice(a, n - b) for (a, b), n in zip(pad, whole.shape))]
            if trial == 5:
                X = whole = np.ascontiguousarray(X.T).T
            all_of_it = whole.copy()
            obs.count('views')
        obs_frac = (X != 0).mean()
        if obs_frac == 0:
            continue
        split = float(rng.choice([0., .1, .3, .5, .5, .9, .97]))
        obs.count('high_splits', split >= .9)
        for fn in ('plain', 'balanced', 'old', 'test_train'):
            np.random.seed(int(rng.integers(1 << 31)))
            keep = X.copy()
            what = 'split %s(%s, %g)' % (fn, list(shape), split)
            n = int((X != 0).sum())
            pos, neg = int((X == 1).sum()), int((X == -1).sum())
            if split >= .9 and fn != 'plain':
                continue
            if fn == 'plain':
                if split > obs_frac:
                    continue
                with Api(what):
                    T, mask = ex.split_train_test(X, split=split)
            elif fn == 'balanced':
                S = int(n * split * .5)
                if S > min(pos, neg) or min(pos, neg) == 0:
                    continue
                with Api(what):
                    T, mask = ex.split_train_test(X, split=split, balanced=True)
            elif fn == 'old':
                with Api(what):
                    T, mask = ex.split_tensor_train_test_old(X, split=split)
            else:
                h = int(X.size * split / 2)
                if K != 2 or neg == 0 or h > min(pos, neg):
                    continue
                with Api(what):
                    T = aux.split_test_train(X, p=split)
                mask = (np.asarray(T) == 0) & (X != 0)
            T = check_call(obs, what, X, keep, T)
            obs.ok(whole is None or np.array_equal(whole, all_of_it), 'input', what + ': the array the data are a view of was changed')
            mask = np.asarray(mask)
            obs.ok(mask.shape == X.shape and mask.dtype == bool, 'mask', '%s: mask %s %s' % (what, mask.shape, mask.dtype))
            obs.ok(not (mask & (X == 0)).any(), 'mask', what + ': missing entries are held out')
            obs.ok(bool((T[mask] == 0).all()), 'held_out', what + ': held-out entries remain in the training data')
            obs.ok(np.array_equal(T[~mask], X[~mask]), 'training', what + ': training entries differ from the data')
            obs.ok(T.dtype == X.dtype, 'type', '%s: type %s' % (what, T.dtype))
            p1, m1 = int((X[mask] == 1).sum()), int((X[mask] == -1).sum())
            if fn in ('balanced', 'test_train'):
                obs.ok(p1 == m1, 'balanced', '%s: %d positive and %d negative entries held out' % (what, p1, m1))
                h = int(n * split * .5) if fn == 'balanced' else int(X.size * split / 2)
                obs.ok(p1 == h, 'balanced', '%s: %d entries per sign held out, expected %d' % (what, p1, h))
                obs.count('balanced')
            if fn in ('plain', 'old') and (X != 0).all():
                frac.append((mask.sum(), split, mask.size, fn))
            obs.count('splits')
            obs.count('held_out', int(mask.sum()))
            obs.saw('split', fn, core.digest(X), core.digest(mask))
    for fn in ('plain', 'old'):
        k = sum(a for a, s, n, f in frac if f == fn)
        e = sum(s * n for a, s, n, f in frac if f == fn)
        v = sum(s * (1 - s) * n + .25 for a, s, n, f in frac if f == fn)
        rounding = len(frac)
        obs.ok(abs(k - e) < 7 * np.sqrt(v) + rounding, 'fraction', 'split %s: %d entries held out, expected %.0f' % (fn, k, e))
        obs.count('statistics')
    # which entries are held out varies
    for fn, shape in (('plain', (8, 6)), ('balanced', (8, 6)), ('old', (8, 6)), ('test_train', (8, 6)),
                      ('plain', (4, 3, 4)), ('balanced', (3, 4, 4)), ('old', (4, 4, 3))):
        X = util.pm(rng, shape)
        X.flat[0], X.flat[1] = 1, -1
        cnt = np.zeros(X.shape)
        R = 80
        for i in range(R):
            np.random.seed(int(rng.integers(1 << 31)))
            with Api('split'):
                if fn == 'test_train':
                    cnt += aux.split_test_train(X, p=.2) == 0
                else:
                    cnt += {'plain': lambda: ex.split_train_test(X, split=.2), 'old': lambda: ex.split_tensor_train_test_old(X, split=.2),
                            'balanced': lambda: ex.split_train_test(X, split=.2, balanced=True)}[fn]()[1]
        for sgn in (1, -1):
            c = cnt[X == sgn]
            if fn in ('plain', 'old'):
                e = np.full(len(c), R * (.2 if fn == 'plain' else int(.2 * 48) / 48.))
            else:
                e = np.full(len(c), c.sum() / len(c))
            z = np.abs(c - e) / np.sqrt(e * .8 + 1)
            obs.ok(bool((z < 7).all()), 'uniform', lambda: 'split %s: held-out frequencies of entries %+d are uneven: %s in %d' % (fn, sgn, c.tolist(), R))
        obs.count('statistics')
    # no region of a larger array is preferred
    for fn, shape in (('plain', (20, 20, 20)), ('plain', (70, 70)), ('balanced', (20, 20, 20)), ('balanced', (70, 70))):
        X = util.pm(rng, shape, .5)
        gone = rng.random(shape) < (.3 if fn == 'plain' else 0)
        X[gone] = 0
        s = float(rng.choice([.1, .3, .5]))
        R = 60
        cnt = np.zeros(shape)
        for i in range(R):
            np.random.seed(int(rng.integers(1 << 31)))
            with Api('split'):
                cnt += ex.split_train_test(X, split=s, balanced=fn == 'balanced')[1]
        for sgn in (1, -1):
            here = X == sgn
            # expected fraction of the observed (of the sign's) entries
            n = int((X != 0).sum())
            p = s * X.size / n if fn == 'plain' else int(n * s * .5) / float(here.sum())
            for ax in range(len(shape)):
                for j in range(shape[ax]):
                    sl = tuple(slice(None) if k != ax else j for k in range(len(shape)))
                    k, m = cnt[sl][here[sl]].sum(), R * here[sl].sum()
                    z = (k - m * p) / np.sqrt(m * p * (1 - p) + 1)
                    obs.ok(abs(z) < 6.5, 'uniform', lambda: 'split %s(%s, %g): slice %d of axis %d, entries %+d: %d held out, expected %.0f' % (
                        fn, list(shape), s, j, ax, sgn, k, m * p))
        obs.count('statistics')
    obs.sample = {'kind': 'split', 'function': fn, 'shape': list(shape), 'split': split, 'held_out': int(mask.sum())}


def tensor(case, obs, rng):
    import lom.experiments as ex
    for trial in range(30):
        L = int(rng.choice([1, 2, 3, 5]))
        dims = list(util.dims(rng, 3, 1, 7))
        if trial % 10 == 0:
            dims = [12, 12, 12]
        if trial % 10 == 5:
            dims[int(rng.integers(3))] = int(rng.choice([33, 70, 140]))
        density = float(rng.choice([0., .1, .3, .5, .8, 1.]))
        p = float(rng.choice([0, 0, .1, .5, 1]))
        what = 'generate_random_tensor(L=%d, %s, noise=%g, density=%g)' % (L, dims, p, density)
        d0 = list(dims)
        np.random.seed(int(rng.integers(1 << 31)))
        with Api(what):
            Xn, X, fs, fd = ex.generate_random_tensor(L, dims, noise=p, density=density)
        Xn, X = np.asarray(Xn), np.asarray(X)
        obs.ok(dims == d0, 'input', what + ' changed its arguments')
        obs.ok(X.shape == tuple(dims) and Xn.shape == X.shape and [f.shape for f in fs] == [(d, L) for d in dims], 'shape', what + ': shapes')
        Y = ref.product([2 * np.asarray(f).astype(int) - 1 for f in fs], 'OR-AND') == 1
        obs.ok(np.array_equal(X.astype(bool), Y), 'product', what + ': tensor is not the Boolean product of the returned factors')
        k = int((Xn != X).sum())
        binom_ok(obs, k, X.size, p, what)
        # density of the factors: chosen such that the expected density is as requested
        e = 1 - (1 - fd ** 3) ** L
        obs.ok(abs(e - density) < 1e-9, 'density', '%s: factor density %g gives expected density %g' % (what, fd, e))
        n = sum(f.size for f in fs)
        binom_ok(obs, int(sum(np.sum(f) for f in fs)), n, float(fd), what + ', factor entries')
        obs.count('tensors')
        obs.count('flips', k)
        obs.saw('tensor', L, dims, p, core.digest(Xn))
    obs.sample = {'kind': 'tensor', 'dims': dims, 'L': L, 'density': density, 'noise': p, 'observed_density': float(X.mean())}


def orm(case, obs, rng):
    import lom.auxiliary_functions as aux
    total = on = 0
    for trial in range(40):
        L = int(rng.choice([1, 2, 2, 3, 4]))
        N, D = [int(x) for x in rng.integers(4, 14, 2)] if L < 4 else [int(x) for x in rng.integers(12, 20, 2)]
        what = 'generate_orm_product(%d, %d, %d)' % (N, D, L)
        np.random.seed(int(rng.integers(1 << 31)))
        with Api(what):
            U, Z, X = aux.generate_orm_product(N, D, L)
        obs.ok(np.shape(U) == (D, L) and np.shape(Z) == (N, L) and np.shape(X) == (N, D), 'shape', '%s: shapes %s, %s, %s' % (what, np.shape(U), np.shape(Z), np.shape(X)))
        obs.ok(all((np.abs(f) == 1).all() for f in (U, Z, X)), 'values', what + ': values other than -1 and 1')
        obs.ok(np.array_equal(X, ref.product([Z, U], 'OR-AND')), 'product', what + ': X is not the Boolean product of the factors')
        for n, f in (('U', U), ('Z', Z)):
            a = f == 1
            for i in range(L):
                for j in range(L):
                    obs.ok(i == j or bool((a[:, i] & ~a[:, j]).any()), 'contained', lambda: '%s: every active entry of column %d of %s is active in column %d: %s' % (
                        what, i, n, j, a.astype(int).tolist()))
            if L == 1 or min(f.shape) > 12:
                total, on = total + a.size, on + int(a.sum())
        obs.count('several_columns', L > 1)
        obs.count('boolean_products')
        obs.saw('orm', core.digest(U, Z))
    binom_ok(obs, on, total, .5, 'factor entries of generate_orm_product')
    obs.sample = {'kind': 'orm', 'N': N, 'D': D, 'L': L}


def auc(case, obs, rng):
    import lom.auxiliary_functions as aux
    for trial in range(40):
        shape = util.dims(rng, 2, 2, 9)
        if trial in (0, 4, 7):      # 4 and 7: with missing entries
            shape = [(60, 50), (1100, 2), (3, 700)][int(rng.integers(3))]
            obs.count('large')
        X = util.pm(rng, shape, rng.choice([.3, .5, .7]))
        T = X.copy()
        T[rng.random(shape) < rng.choice([.2, .5, 1.])] = 0
        held = T == 0
        if trial % 3 == 1:
            # entries that were never observed are no test cases, whatever is predicted for them
            gone = rng.random(shape) < rng.choice([.1, .4])
            X[gone] = T[gone] = 0
            held = held & ~gone
            obs.count('large_auc_missing', trial in (4, 7))
            obs.count('auc_missing', int(gone.sum()) if (X == -1).any() else 0)
        elif trial % 6 == 2:
            # data coded 0/1
            X = (X == 1).astype([np.int8, int, float][int(rng.integers(3))])
        if not (X == -1).any() and trial % 3 == 1:
            continue
        y = X[held] == 1
        if y.all() or not y.any():
            continue
        P = rng.random(shape)
        if rng.random() < .5:
            P = np.round(P, 1)
        if rng.random() < .3:
            P = np.where(rng.random(shape) < .8, X == 1, P)
        if trial % 4 == 0:
            # predictions perfect on training entries only must not help
            P = np.where(held, P, X == 1)
        keep = [X.copy(), T.copy(), P.copy()]
        with Api('get_roc_auc'):
            a = float(aux.get_roc_auc(X, T, P))
        s = P[held]
        d = s[y][:, None] - s[~y][None, :]
        e = ((d > 0).sum() + .5 * (d == 0).sum()) / d.size
        obs.ok(abs(a - e) < 1e-9, 'auc', 'get_roc_auc: %.9g, all pairs of held-out entries give %.9g (%d held out of %d)' % (a, e, held.sum(), X.size))
        obs.ok(all(np.array_equal(x, y) for x, y in zip(keep, (X, T, P))), 'input', 'get_roc_auc changed its input')
        obs.count('aucs')
        obs.saw('auc', core.digest(X, T, P))
    obs.sample = {'kind': 'auc', 'shape': list(shape), 'held_out': int(held.sum()), 'auc': a}


def run(case, obs):
    rng = util.rng_of('c16', case)
    k = case['kind']
    if k in ('noise', 'biased'):
        noise(case, obs, rng, k == 'biased')
    else:
        {'noise3': noise3, 'split': split, 'tensor': tensor, 'auc': auc, 'orm': orm}[k](case, obs, rng)
