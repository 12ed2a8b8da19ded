import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api

PROPERTY = 'C17'
RULE = ('one case = operator pair. expected_density is evaluated on a grid and at random densities, K = 2..6 factors and L = 1..40 '
        'latent dimensions and compared with the probability computed by recursion over independent bits, by brute-force '
        'enumeration for small K*L, and by the mean of really generated products; factor_density results are '
        'substituted back unless it reports failure. Distinct non-trivial = distinct (pair, L, K, f) with 0 < f < 1.')
REQUIRED = {'densities': 20000, 'enumerated': 800, 'inversions': 300, 'inversions_successful': 100, 'edges': 2000, 'sampled': 36, 'extreme_inversions': 400, 'unattainable': 30}


def cases(tier, seed):
    return [{'model': m, 'seed': [seed, r]} for m in ref.PAIRS for r in range(1 if tier == 'quick' else 8)]


def exact(model, L, K, f):
    outer, inner = model.split('-')
    p = ref.p_op(inner, np.full(K, f))
    return float(ref.p_op(outer, np.full(L, float(p))))


def run(case, obs):
    rng = util.rng_of('c17', case)
    import lom.auxiliary_functions as aux
    model = case['model']

    def get(L, K, f):
        with Api('expected_density(%s, L=%s, K=%s, f=%s)' % (model, L, K, f)):
            return float(aux.expected_density(model, L, K, f))
    for L in [1, 2, 3, 4, 5, 6, 8, 11, 20, 40, 130, 300]:
        for K in [2, 3, 4, 5, 6, 9] if L < 100 else [2, 3, 7]:
            fs = [0., 1., .5] + [float(x) for x in np.linspace(.02, .98, 7)] + [float(x) for x in rng.random(5)] + [1e-6, 1 - 1e-6] + [float(x) for x in (rng.random(2) * 4 / L, 1 - rng.random(2) * 4 / L) for x in x if 0 < x < 1]
            for f in fs:
                e, g = exact(model, L, K, f), get(L, K, f)
                obs.ok(abs(g - e) <= 1e-9, 'density', 'expected_density(%s, L=%d, K=%d, f=%r) = %.12g, exact probability %.12g' % (model, L, K, f, g, e))
                obs.count('densities')
                obs.count('edges', f in (0., 1.))
                if 0 < f < 1:
                    obs.saw(model, L, K, f)
    for L, K in [(1, 2), (2, 2), (3, 2), (1, 3), (2, 3), (3, 3), (4, 2), (2, 4)]:
        for f in rng.random(3):
            e, g = ref.p_product_enum([[f] * L] * K, model), get(L, K, float(f))
            obs.ok(abs(g - e) <= 1e-9, 'density', 'expected_density(%s, L=%d, K=%d, f=%r) = %.12g, enumeration of all factor bits %.12g' % (model, L, K, f, g, e))
            obs.count('enumerated')
    # the library's own products of random factors have that density
    L, K = int(rng.integers(1, 4)), int(rng.integers(2, 4))
    f = float(rng.uniform(.3, .7))
    n, s, s2 = 150, 0., 0.
    for i in range(n):
        fac = [util.pm(rng, (3, L), f) for _ in range(K)]
        with Api('lom_generate_data_fast'):
            v = float((np.asarray(aux.lom_generate_data_fast(fac, model)) == 1).mean())
        s += v
        s2 += v * v
    mean, sd = s / n, np.sqrt(max(1e-6, (s2 / n - (s / n) ** 2)) / n)
    e = get(L, K, f)
    obs.ok(abs(mean - e) < 7 * sd + .01, 'sampled_density', 'products of random factors (%s, L=%d, K=%d, f=%g) have density %.4f +- %.4f, expected %.4f' % (model, L, K, f, mean, sd, e))
    obs.count('sampled')
    for i in range(14):
        L, K = int(rng.choice([1, 2, 3, 5, 8])), int(rng.choice([2, 3, 4]))
        f0 = float(rng.uniform(.05, .95))
        X = exact(model, L, K, f0) if i % 4 else float(rng.random())
        what = 'factor_density(%s, L=%d, K=%d, X=%.6g)' % (model, L, K, X)
        with Api(what) as api:
            f = float(aux.factor_density(model, L, K, X))
        text = api.out.getvalue()
        obs.count('inversions')
        if 'not exist' in text:
            continue
        obs.count('inversions_successful')
        obs.ok(0 <= f <= 1, 'inverse_range', '%s returned %r' % (what, f))
        e = exact(model, L, K, f)
        obs.ok(abs(e - X) < 2e-6, 'inverse', '%s returned %.9g, which has expected density %.9g' % (what, f, e))
    # densities just within and just beyond what can be attained
    grid = np.linspace(0, 1, 4001)
    for i in range(12):
        L, K = int(rng.choice([1, 2, 3, 5])), int(rng.choice([2, 3, 4]))
        v = [exact(model, L, K, f) for f in grid[::20]]
        lo, hi = min(v), max(v)
        # refine an interior optimum
        for sgn in (-1, 1):
            k = int(np.argmax(np.array(v) * sgn))
            fine = [exact(model, L, K, f) for f in grid[max(0, 20 * k - 20):20 * k + 21]]
            lo, hi = min([lo] + fine), max([hi] + fine)
        gap = float(rng.choice([1e-5, 5e-5, 3e-4, 3e-3, .03]))
        X = [hi + gap, lo - gap, hi - gap, lo + gap][i % 4]
        if not 0 <= X <= 1:
            X = [1., 0.][i % 2]
        what = 'factor_density(%s, L=%d, K=%d, X=%.9g)' % (model, L, K, X)
        with Api(what) as api:
            f = float(aux.factor_density(model, L, K, X))
        obs.count('extreme_inversions')
        obs.count('unattainable', X > hi + 2e-6 or X < lo - 2e-6)
        if 'not exist' in api.out.getvalue():
            continue
        obs.ok(0 <= f <= 1, 'inverse_range', '%s returned %r' % (what, f))
        e = exact(model, L, K, f)
        obs.ok(abs(e - X) < 2e-6, 'inverse', '%s returned %.9g, which has expected density %.9g (densities from %.9g to %.9g are attained)' % (what, f, e, lo, hi))
    obs.sample = {'model': model, 'L': L, 'K': K, 'f': f0, 'expected_density': exact(model, L, K, f0)}
