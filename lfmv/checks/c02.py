import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api

PROPERTY = 'C02'
RULE = ('one case = one operator pair x number of factors; probabilities are drawn uniform, near 0/1, exactly 0/1, on a '
        'coarse grid, constant or mixed, L up to 40, unequal and size-1 axes. Oracle: recursion over latent dimensions for P(none), '
        'P(exactly one), P(all), itself compared with brute-force enumeration in the run. Every cell is one '
        'evaluation; distinct non-trivial = distinct (pair, factors) with at least one probability strictly inside (0,1).')
REQUIRED = {'cells_fast': 1000, 'cells_general': 1000, 'cells_scalar': 500, 'oracle_enumerations': 30, 'crisp_cells': 300, 'tall': 60, 'certain_rows': 60, 'deep': 50}
TOL = 1e-9


def cases(tier, seed):
    out = []
    for r in range(1 if tier == 'quick' else 8):
        for m in ref.PAIRS:
            for K in (2, 3):
                out.append({'model': m, 'K': K, 'seed': [seed, r], 'n': 14 if tier == 'quick' else 25})
    return out


def probs(rng, shape, kind):
    p = rng.random(shape)
    if kind == 1:
        p = np.where(rng.random(shape) < .5, p * 1e-3, 1 - p * 1e-3)
    if kind == 2:
        p = (p < .5).astype(float)
    if kind == 3:
        p = np.where(rng.random(shape) < .4, (p < .5).astype(float), p)
    if kind == 4:
        p = np.where(rng.random(shape) < .8, p * .1, p)
    if kind == 5:  # coarse grid: exact halves, repeated values
        p = rng.choice([0., .25, .5, .5, .75, 1.], size=shape)
    if kind == 6:  # identical columns / one value everywhere
        p = np.full(shape, rng.choice([.5, .1, .25, rng.random()]))
    return p


def run(case, obs):
    lom = core.load()
    import lom.auxiliary_functions as aux
    from lom._numba import lambda_updates_numba as lu
    rng = util.rng_of('c02', case)
    model, K = case['model'], case['K']
    # the oracle against plain enumeration
    for L in (1, 2, 3 if K == 2 else 2):
        v = [rng.random(L) for _ in range(K)]
        a, b = ref.p_product_enum(v, model), ref.p_product([x[None, :] for x in v], model).item()
        if abs(a - b) > 1e-12:
            raise AssertionError('oracle disagrees with enumeration')
        obs.count('oracle_enumerations')
    for i in range(case['n']):
        kind = i % 7
        L = int(rng.choice([1, 2, 3, 4, 6, 9, 40] if kind else [1, 2, 3, 4]))
        ds = list(util.dims(rng, K, 1, 4))
        if i % 7 == 6 or i == 0:        # many rows
            ds[int(rng.integers(K))] = int(rng.choice([130, 300, 600]))
            L = min(L, 4)
        elif i == 8:                    # many latent dimensions
            L, ds = int(rng.choice([150, 260, 400])), [2] * K
        fs = [probs(rng, (d, L), kind) for d in ds]
        if L > 100:
            for f in fs:                # rows whose product is not numerically 0 or 1
                f[0] = [f[0], f[0] * 3. / L, 1 - f[0] * 3. / L][int(rng.integers(3))]
            for f in fs:
                f[1] = 1 - rng.random(L) * 2. / L
        elif kind not in (2, 6) and i % 2:      # one row of certain ones, one of certain zeros, in one factor
            f = fs[int(rng.integers(K))]
            f[0] = 1.
            f[-1] = float(len(f) == 1)
            obs.count('certain_rows')
        vs = fs
        if kind == 2 and rng.random() < .6:
            vs = [f.astype([np.int8, bool, np.int64][i % 3]) for f in fs]
        elif rng.random() < .3:
            vs = [np.asfortranarray(f) for f in fs]
        elif rng.random() < .2:
            vs = [f.copy() for f in fs]
            for f in vs:
                f.flags.writeable = False
        obs.count('tall', max(ds) > 100)
        obs.count('deep', L > 100)
        exp = ref.p_product(fs, model)
        before = core.digest(*vs)

        def verdict(got, what, tag):
            got = np.asarray(got)
            obs.ok(got.shape == exp.shape, 'shape', lambda: '%s %s %dD: shape %s, expected %s' % (what, model, K, got.shape, exp.shape))
            obs.ok(bool(np.all(np.abs(got - exp) <= TOL)), 'value:' + tag,
                   lambda: '%s of %s (%d factors, L=%d): %s' % (what, model, K, L, util.diff_at(got, exp)), n=exp.size)
            obs.ok(bool(np.all((got >= -1e-9) & (got <= 1 + 1e-9))), 'range', lambda: '%s of %s outside [0,1]' % (what, model))
            if kind == 2:
                crisp = ref.product([2 * f - 1 for f in fs], model)
                obs.ok(util.same(got, (crisp + 1) / 2., 1e-9), 'crisp', lambda: '%s of %s: not the logical product for 0/1 inputs' % (what, model))
                obs.count('crisp_cells', exp.size)

        with Api('lom_generate_data_fast(%s, fuzzy)' % model):
            got = aux.lom_generate_data_fast(vs, model, fuzzy=True)
        verdict(got, 'lom_generate_data_fast(fuzzy)', 'fast')
        obs.count('cells_fast', exp.size)
        with Api('lom_generate_data_fuzzy(%s)' % model):
            got = aux.lom_generate_data_fuzzy([2 * f - 1 for f in fs], model)
        verdict((np.asarray(got) + 1) / 2, 'lom_generate_data_fuzzy', 'general')
        obs.count('cells_general', exp.size)
        obs.ok(core.digest(*vs) == before, 'inputs', 'fuzzy product of %s changed its inputs' % model)
        if model in ref.EIGHT:
            f = (lu.get_scalar_output_function_2d if K == 2 else lu.get_scalar_output_function_3d)(model, fuzzy=True)
            if f is None:
                obs.fail('scalar', 'no scalar fuzzy product for %s %dD' % (model, K))
            idx = list(np.ndindex(*exp.shape))
            for ix in [idx[k] for k in rng.permutation(len(idx))[:200]]:
                with Api('scalar fuzzy product %s %dD' % (model, K)):
                    v = f(*[fs[k][ix[k]] for k in range(K)])
                obs.ok(abs(v - exp[ix]) <= TOL, 'value:scalar', lambda: 'scalar fuzzy product %s %dD of %s: got %r, expected %r' % (
                    model, K, [fs[k][ix[k]].tolist() for k in range(K)], v, exp[ix]))
                obs.count('cells_scalar')
        if kind != 2:
            obs.saw(model, K, core.digest(*fs))
    obs.sample = {'model': model, 'last_factors': [np.round(f, 4).tolist() for f in fs][:1], 'expected_cell': float(exp.flat[0])}
