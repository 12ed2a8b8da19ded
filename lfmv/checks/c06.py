import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api

PROPERTY = 'C06'
RULE = ('one case = model x 2D/3D (or a hierarchy of two/three layers) x random shapes, data (also fully missing, '
        'perfectly explained, perfectly contradicted), factors and beta prior. After real inference sweeps the '
        'dispersion (and its whole trace, against the traces of the factors) is compared with the posterior-mean '
        'formula. Distinct non-trivial = distinct (model, n, P, prior) with observed data.')
REQUIRED = {'updates': 600, 'positive': 100, 'clamped': 50, 'all_missing': 16, 'perfect': 16, 'layers_in_hierarchy': 40, 'replaced_data': 50, 'large': 6, 'large_exact': 12, 'long_axis': 20}
TOL = 1e-7


def cases(tier, seed):
    out = []
    for r in range(2 if tier == 'quick' else 20):
        for m in ref.EIGHT:
            for K in (2, 3):
                out.append({'model': m, 'K': K, 'seed': [seed, r]})
        for i in range(8):
            out.append({'model': 'hier', 'seed': [seed, r, i]})
    out += [{'model': m, 'K': K, 'seed': [seed], 'large': 1} for m in ref.EIGHT for K in (2, 3)]
    return out


def expected(X, factors, model, prior):
    return ref.dispersion(X, ref.product(factors, model), prior)


def prior_of(rng):
    return [(1, 1), (1, 1), (.5, .5), (3, 1), (1, 7.5), (10, 10), (2.5, 40), (30.5, 22.25), (.01, 300.7)][int(rng.integers(9))]


def judge(obs, got, exp, what):
    try:
        g = float(got)
    except Exception:
        obs.fail('type', '%s: dispersion is %r' % (what, got))
    obs.ok(np.isfinite(g) and g >= 0, 'range', '%s: dispersion %r is not finite and non-negative' % (what, g))
    obs.ok(abs(g - exp) <= TOL * (1 + abs(exp)), 'value', '%s: dispersion %.9g, expected %.9g' % (what, g, exp))
    obs.count('updates')
    obs.count('positive' if exp > 0 else 'clamped')


def run(case, obs):
    rng = util.rng_of('c06', case)
    if case['model'] == 'hier':
        return hierarchy(case, obs, rng)
    model, K = case['model'], case['K']
    big = 'large' in case
    for i in range(1 + K if big else 14):
        L = int(rng.choice([1, 2, 3, 5]))
        ds = util.dims(rng, K, 1, 7 if K == 2 else 4)
        if big:
            ds = (190, 181) if K == 2 else (23, 37, 41)
            if i:       # one long axis
                ds = [int(x) for x in rng.integers(2, 6, size=K)]
                ds[i - 1] = int(rng.integers(260, 1300 if K == 2 else 400))
            L = 2
        fs = [util.pm(rng, (d, L), rng.choice([.2, .5, .8])) for d in ds]
        Y = ref.product(fs, model).astype(np.int8)
        kind = i % 7
        X = util.data(rng, ds, .5, rng.choice([0, .4, .9]))
        if kind == 0:
            X[:] = 0
            obs.count('all_missing')
        elif kind == 1:
            X = np.where(rng.random(ds) < rng.choice([0, .3]), 0, Y).astype(np.int8)
            obs.count('perfect')
        elif kind == 2:
            X = (-Y).astype(np.int8)
        elif kind in (3, 4):
            X = np.where(rng.random(ds) < .85, Y, X).astype(np.int8)
        if big:
            exact = i == 0
            X = np.where(rng.random(ds) < (1 if exact else .85), Y, -Y).astype(np.int8)
            obs.count('large_exact', exact)
            X[rng.random(ds) < rng.choice([.02, .3])] = 0
            obs.count('long_axis', i > 0)
        obs.count('large', big)
        prior = prior_of(rng) if not big or i else (1, 1)
        with Api('building %s' % model):
            m, d, lr = util.build(X, L, model, fs)
        lr.lbda.beta_prior = prior
        lr.lbda.val = float(rng.choice([.05, 1., 4.]))
        what = '%s %dD, n=%d' % (model, K, (X != 0).sum())
        # factors held: one and several updates
        for f in lr.factors:
            f.fixed = True
        with Api('infer %s' % what):
            util.sweeps(m, 1 if big else 2)
        e = expected(X, fs, model, prior)
        judge(obs, lr.lbda(), e, what)
        obs.ok(all(np.array_equal(f(), v) for f, v in zip(lr.factors, fs)), 'purity', what + ': update changed factors')
        if (X != 0).any():
            obs.saw(model, K, int((X != 0).sum()), round(e, 6), prior)
        if big:
            continue
        # factors sampled: every recorded dispersion belongs to the recorded factors
        for f in lr.factors:
            f.fixed = False
        if rng.random() < .4:
            # the data has been replaced since
            X = util.data(rng, ds, .5, rng.choice([0, .3, .8]))
            d.val = X.copy()
            obs.count('replaced_data')
        prior2 = prior_of(rng)
        lr.lbda.beta_prior = list(prior2)
        with Api('infer %s' % what):
            util.sweeps(m, 5)
        judge(obs, lr.lbda(), expected(X, [f() for f in lr.factors], model, prior2), what + ' (after sampling)')
        tr = np.asarray(lr.lbda.trace)
        obs.ok(tr.shape == (5,), 'trace', '%s: dispersion trace has shape %s' % (what, tr.shape))
        for t in range(5):
            e = expected(X, [f.trace[t] for f in lr.factors], model, prior2)
            obs.ok(abs(float(tr[t]) - e) <= 1e-5 * (1 + e), 'value', '%s: sample %d: dispersion %.7g, expected %.7g' % (what, t, tr[t], e))
            obs.count('updates')
    obs.sample = {'model': model, 'axes': K, 'shape': list(X.shape), 'observed': int((X != 0).sum()), 'prior': list(prior), 'expected': round(float(e), 6)}


def hierarchy(case, obs, rng):
    lom = core.load()
    for trial in range(4):
        ms = [ref.EIGHT[int(k)] for k in rng.integers(8, size=3)]
        K = 3 if rng.random() < .3 else 2
        X = util.data(rng, util.dims(rng, K, 2, 6 if K == 2 else 4), .5, .2)
        freex = rng.random() < .3
        if freex and K == 2:
            X = util.pm(rng, X.shape)
        with Api('building a hierarchy'):
            m = lom.Machine()
            d = m.add_matrix(X.copy(), fixed=not (freex and K == 2))
            l0 = m.add_layer(latent_size=2, child=d, model=ms[0])
            l1 = m.add_layer(latent_size=3, child=l0.factors[int(rng.integers(K))], model=ms[1])
            # a factor of a 3D layer can have one parent only
            free = [f for f in l0.factors if f is not l1.child] if K == 3 else l0.factors
            l2 = None
            if rng.random() < .6:
                cands = l1.factors if rng.random() < .5 else free
                l2 = m.add_layer(latent_size=2, child=cands[int(rng.integers(len(cands)))], model=ms[2])
        layers = [l for l in (l0, l1, l2) if l is not None]
        priors = []
        for l in layers:
            l.lbda.beta_prior = prior_of(rng)
            priors.append(l.lbda.beta_prior)
        held = int(rng.integers(len(layers) + 1))
        for i, l in enumerate(layers):
            l.lbda.val = .5 + i
            l.lbda.fixed = i == held
        with Api('infer hierarchy %s' % ms):
            util.sweeps(m, 3)
        for i, l in enumerate(layers):
            if i == held:
                obs.ok(l.lbda() == .5 + i, 'fixed', 'fixed dispersion changed')
                continue
            e = expected(l.child(), [f() for f in l.factors], ms[i], priors[i])
            judge(obs, l.lbda(), e, 'layer %d of hierarchy %s' % (i, ms[:len(layers)]))
            obs.count('layers_in_hierarchy')
            obs.saw('hier', ms, i, round(e, 6))
    obs.sample = {'hierarchy': ms[:len(layers)], 'dispersion_of_last_layer': float(layers[-1].lbda())}
