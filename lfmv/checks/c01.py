import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api

PROPERTY = 'C01'
RULE = ('one case = one operator pair x number of factors; factor matrices enumerate all rows for small L (so all '
        'cell inputs are seen), plus random/sparse/dense rows with up to 300 latent dimensions and unequal or size-1 '
        'axes, several dtypes and memory layouts. Every product cell is one evaluation; distinct non-trivial = '
        'distinct (pair, function, factors) with both outcomes present or L>=9.')
REQUIRED = {'cells_fast': 2000, 'cells_general': 2000, 'cells_scalar': 2000, 'cells_boolean_tensor': 300,
            'orm_products': 3, 'pairs_both_values': 30, 'tall': 60, 'one_array': 90, 'four_factors': 60}


def cases(tier, seed):
    out = []
    reps = 1 if tier == 'quick' else 8
    for r in range(reps):
        for m in ref.PAIRS:
            for K in (2, 3):
                out.append({'kind': 'pair', 'model': m, 'K': K, 'seed': [seed, r], 'n': 6 if tier == 'quick' else 12})
        out.append({'kind': 'bool', 'seed': [seed, r]})
        out.append({'kind': 'orm', 'seed': [seed, r]})
    return out


def all_rows(L):
    return np.array([[1 if (i >> l) & 1 else -1 for l in range(L)] for i in range(2 ** L)], dtype=np.int8)


def few_on(rng, n, L):
    """rows with exactly 0,1,2,L-1,L entries on"""
    out = -np.ones((n, L), dtype=np.int8)
    for i in range(n):
        k = int(rng.choice([0, 1, 2, max(L - 1, 0), L]))
        out[i, rng.permutation(L)[:k]] = 1
    return out


def factor_sets(rng, K, n):
    for L in ((1, 2, 3, 4) if K == 2 else (1, 2, 3)):
        yield [all_rows(L)] * K
    for i in range(n):
        L = int(rng.choice([1, 2, 3, 5, 8, 9, 12, 17]))
        yield [util.pm(rng, (d, L), rng.choice([.2, .5, .8])) for d in util.dims(rng, K)]
    for i in range(n):
        L = int(rng.choice([2, 3, 6, 9, 33]))
        # factors close to all-on: inner products with few true / few false dimensions
        fs = [few_on(rng, d, L) for d in util.dims(rng, K, 1, 4)]
        if rng.random() < .6:
            keep = int(rng.integers(K))
            for k in range(K):
                if k != keep:
                    fs[k] = np.ones_like(fs[k]) if rng.random() < .5 else -np.ones_like(fs[k])
        yield fs
    # more rows than any block size, on each axis in turn
    for k in range(K):
        L = int(rng.choice([2, 3, 5]))
        d = [1 if rng.random() < .5 else 2] * K
        d[k] = int(rng.choice([300, 1100, 2100])) if k == int(rng.integers(K)) else 270
        fs = [util.pm(rng, (n, L), rng.choice([.4, .7])) for n in d]
        yield fs
    for L in (130, 300, 1100):
        fs = [few_on(rng, 3, L) for _ in range(K)]
        fs[0] = np.vstack([np.ones((1, L)), -np.ones((1, L)), fs[0]]).astype(np.int8)
        fs[1] = np.vstack([np.ones((1, L)), -np.ones((1, L)), fs[1]]).astype(np.int8)
        yield fs
    # a single dimension decides
    for L in (300, 1100):
        fs = [np.where(rng.random((3, L)) < .5, 1, -1).astype(np.int8) for _ in range(K)]
        mode = int(rng.integers(3))
        for f in fs:
            f[:2] = 1 if mode else -1
        for f in fs:
            for r in (0, 1):
                if rng.random() < .7:
                    f[r, int(rng.integers(L)) if mode < 2 else L - 1] *= -1
        yield fs
    # counts that are 1, 0 or 255 modulo 256
    L = 257
    fs = [np.vstack([np.ones((1, L)), -np.ones((1, L))]).astype(np.int8) for _ in range(K)]
    more = np.ones((2, L), dtype=np.int8)
    more[0, 0] = more[1, 0] = more[1, 1] = -1
    fs[0] = np.vstack([fs[0], more, -more])
    yield fs
    # one array used for several factors
    for L in (1, 3, 5):
        f = util.pm(rng, (6, L), rng.choice([.5, .8]))
        yield [f] * K


def variants(rng, fs):
    """same values, other memory layouts / dtypes"""
    if fs[0] is fs[1] and fs[0].shape == (6, fs[0].shape[1]):
        return fs, 'one array'
    v = int(rng.integers(7))
    if v == 0:
        return fs, 'int8'
    if v == 1:
        return [np.asfortranarray(f) for f in fs], 'int8,F'
    if v == 2:
        return [np.repeat(f, 2, axis=0)[::2] for f in fs], 'int8,strided'
    if v == 4:
        fs = [f.copy() for f in fs]
        for f in fs:
            f.flags.writeable = False
        return fs, 'read-only'
    if v == 5:
        return [f.astype(float) for f in fs], 'float'
    if v == 6:      # factors that share memory
        big = np.concatenate(fs)
        cut = np.cumsum([0] + [len(f) for f in fs])
        return [big[a:b] for a, b in zip(cut[:-1], cut[1:])], 'views of one array'
    return [f.astype(np.int64) for f in fs], 'int64'


def check_cells(obs, got, exp, what, model, fs, n=None):
    got = np.asarray(got)
    obs.ok(got.shape == exp.shape, 'shape', lambda: '%s %s: shape %s, expected %s' % (what, model, got.shape, exp.shape))
    obs.ok(util.same(got, exp), 'value:' + what.split(' ')[0],
           lambda: '%s of %s, L=%d: cell %s' % (what, model, fs[0].shape[1], util.diff_at(got, exp)), n=exp.size)


def run(case, obs):
    lom = core.load()
    import lom.auxiliary_functions as aux
    from lom._numba import lambda_updates_numba as lu
    rng = util.rng_of('c01', case)
    if case['kind'] == 'orm':
        for _ in range(4):
            N, D, L = int(rng.integers(8, 30)), int(rng.integers(8, 20)), int(rng.integers(1, 4))
            with Api('generate_orm_product'):
                U, Z, X = aux.generate_orm_product(N, D, L)
            obs.ok(U.shape == (D, L) and Z.shape == (N, L), 'orm', 'generate_orm_product: factor shapes')
            obs.ok(set(np.unique(U)) <= {-1, 1} and set(np.unique(Z)) <= {-1, 1}, 'orm', 'generate_orm_product: factors not in {-1,1}')
            check_cells(obs, X, ref.product([Z, U], 'OR-AND'), 'generate_orm_product', 'OR-AND', [Z, U])
            obs.count('orm_products')
            obs.saw('orm', core.digest(U, Z))
        return
    if case['kind'] == 'bool':
        for i in range(30):
            L = int(rng.choice([1, 2, 3, 5, 9, 20, 60]))
            fs = [rng.random((d, L)) < rng.choice([.3, .5, .8] if L < 20 else [.1, .25]) for d in util.dims(rng, 3, 1, 5)]
            if i % 3 == 1:
                fs = [f.astype(np.int8) for f in fs]
            if i % 3 == 2:
                fs = [(2 * f.astype(np.int8) - 1).astype(np.int8) for f in fs]
            before = core.digest(*fs)
            with Api('boolean_tensor_product'):
                X = aux.boolean_tensor_product(*fs)
            exp = ref.product([2 * (f == 1).astype(int) - 1 for f in fs], 'OR-AND') == 1
            obs.ok(np.asarray(X).shape == exp.shape and np.array_equal(np.asarray(X) == 1, exp) and
                   set(np.unique(X)) <= {False, True}, 'value:boolean_tensor_product',
                   lambda: 'boolean_tensor_product: %s' % util.diff_at(np.asarray(X).astype(int), exp.astype(int)), n=exp.size)
            obs.ok(core.digest(*fs) == before, 'inputs', 'boolean_tensor_product changed its inputs')
            obs.count('cells_boolean_tensor', exp.size)
            obs.saw('bool', core.digest(*fs))
        return

    model, K = case['model'], case['K']
    both = set()
    for fs in factor_sets(rng, K, case['n']):
        exp = ref.product(fs, model)
        both |= set(np.unique(exp).tolist())
        vs, lay = variants(rng, fs)
        before = core.digest(*vs)
        with Api('lom_generate_data_fast(%s)' % model):
            got = aux.lom_generate_data_fast(vs, model)
        check_cells(obs, got, exp, 'lom_generate_data_fast (%s)' % lay, model, fs)
        obs.count('cells_fast', exp.size)
        if exp.size * fs[0].shape[1] <= 40000:
            with Api('lom_generate_data(%s)' % model):
                got = aux.lom_generate_data(vs, model)
            check_cells(obs, got, exp, 'lom_generate_data (%s)' % lay, model, fs)
            obs.count('cells_general', exp.size)
        obs.ok(core.digest(*vs) == before, 'inputs', 'product of %s changed its inputs' % model)
        if model in ref.EIGHT:
            f = (lu.get_scalar_output_function_2d if K == 2 else lu.get_scalar_output_function_3d)(model)
            if f is None:
                obs.fail('scalar', 'no scalar product for %s %dD' % (model, K))
            idx = list(np.ndindex(*exp.shape))
            if len(idx) > 300:
                idx = [idx[i] for i in rng.permutation(len(idx))[:300]]
            for ix in idx:
                rows = [fs[k][ix[k]] for k in range(K)]
                with Api('scalar product %s %dD' % (model, K)):
                    v = f(*rows)
                obs.ok(v == exp[ix], 'value:scalar', lambda: 'scalar product %s %dD of %s: got %s, expected %s' % (
                    model, K, [r.tolist() for r in rows], v, exp[ix]))
            obs.count('cells_scalar', len(idx))
        obs.count('one_array', lay == 'one array')
        obs.count('tall', max(exp.shape) > 256)
        obs.saw(model, K, core.digest(*fs))
    for L in (1, 2, 3) if K == 2 else ():       # four factors
        fs = [util.pm(rng, (d, L), .6) for d in (2, 3, 2, 2)]
        exp = ref.product(fs, model)
        for fn in (aux.lom_generate_data_fast, aux.lom_generate_data):
            with Api('%s(%s), four factors' % (fn.__name__, model)):
                got = fn([f.copy() for f in fs], model)
            check_cells(obs, got, exp, fn.__name__ + ' (four factors)', model, fs)
        obs.count('four_factors')
    if both == {-1, 1}:
        obs.count('pairs_both_values')
    obs.sample = {'model': model, 'factors': K, 'L=1..%d' % (4 if K == 2 else 3): 'all rows, all cells',
                  'last_shapes': [list(f.shape) for f in fs]}
