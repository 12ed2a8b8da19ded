import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.world import World, FlipMonitor, calibrated, one_per_row

PROPERTY = 'C09'
RULE = ('one case = model x 2D/3D. A small problem is embedded at random positions into a larger one whose additional rows, columns '
        'and slices of data are entirely missing (their latent rows random). Updates in the real, padded machine are judged '
        'against the exact odds of the small problem (rows with data) or of prior and parents alone (rows without); the '
        'dispersions (scalar, MAX-AND vector) and thresholds of the padded machine against those of the small problem, the real '
        'unpadded machine included. Distinct non-trivial = distinct (model, small problem, padding).')
REQUIRED = {'observed_rows_judged': 2500, 'unobserved_rows_judged': 1500, 'dispersion_pairs': 250, 'must_flip_informative': 1500,
            'chance_flips': 600, 'fully_missing': 20, 'qL_thresholds': 40, 'with_parent': 40, 'scattered': 60, 'calibrations': 10}
KINDS = ref.EIGHT + ['MAX-AND', 'qL-AND']


def cases(tier, seed):
    out = []
    for r in range(2 if tier == 'quick' else 24):
        for m in KINDS:
            for K in ((2, 3) if m in ref.EIGHT else (2, 2)):
                out.append({'model': m, 'K': K, 'seed': [seed, r, len(out)]})
    return out


def small(rng, model, K):
    w = World()
    L = int(rng.choice([1, 2, 3, 5]))
    ds = util.dims(rng, K, 1, 5 if K == 2 else 3)
    dens = rng.choice([.3, .5, .75])
    w.mats['X'] = util.data(rng, ds, .5, rng.choice([0, .5]))
    lbda = float(rng.choice([.4, 1., 40., 40.]))
    q = None
    if model == 'MAX-AND':
        lbda = np.append(rng.uniform(.35, .95, L), .1)
        if rng.random() < .3:
            lbda[:-1] = lbda[0]
    if model == 'qL-AND':
        q = rng.integers(1, 4, size=ds[1])
    names = w.add_layer('X', [util.pm(rng, (d, L), dens) for d in ds], model, lbda, q=q)
    if rng.random() < .5 and model not in ('MAX-AND',):
        Y = w.layer_product(w.layers[0], [w.mats[n] for n in names])
        w.mats['X'] = np.where((w.mats['X'] != 0) & (rng.random(ds) < .85), Y, w.mats['X']).astype(np.int8)
    return w, names


def pad(rng, w, names, amounts=None):
    """padded copy and, per axis, the positions of the original rows"""
    ds = w.mats['X'].shape
    W = w.copy()
    pos = []
    for k, d in enumerate(ds):
        extra = int(rng.integers(0, 4)) if amounts is None else amounts[k]
        p = np.sort(rng.choice(d + extra, d, replace=False))
        pos.append(p)
    big = [d + e for d, e in zip(ds, [0] * len(ds))]
    sizes = []
    for k, d in enumerate(ds):
        n = (pos[k].max() + 1) if len(pos[k]) else 0
        sizes.append(max(n, d + (amounts[k] if amounts is not None else 0)) + int(rng.integers(0, 3)))
    X = np.zeros(sizes, dtype=np.int8)
    X[np.ix_(*pos)] = w.mats['X']
    W.mats['X'] = X
    L = w.mats[names[0]].shape[1]
    for k, n in enumerate(names):
        f = util.pm(rng, (sizes[k], L), .5)
        f[pos[k]] = w.mats[n]
        W.mats[n] = f
    if w.layers[0]['q'] is not None:
        q = rng.integers(1, 6, size=sizes[1])
        q[pos[1]] = w.layers[0]['q']
        W.layers[0]['q'] = q
    return W, pos, sizes


def probe(obs, mon, rng, w, W, names, pos, label, only=None):
    """one sweep of the padded machine with one free entry per row in one factor"""
    k = int(rng.integers(len(names))) if only is None else only
    t = names[k]
    logical = w.layers[0]['model'] not in ('MAX-AND', 'qL-AND')
    prior = float(rng.choice([.5, .2, .9, 1e-6])) if logical else .5
    W.prior[t] = w.prior[t] = prior
    W.fixed = set(W.mats) - {t}
    W.mask = {}
    W.mask[t], where = one_per_row(rng, W.mats[t].shape)
    before = W.mats[t].copy()
    W.push()
    W.fix_lbdas()
    with Api('Machine.infer (%s)' % label):
        util.sweeps(W.machine, 1)
    after = np.asarray(W.obj[t].val)
    obs.ok(after.shape == before.shape, 'shape', label + ': shape changed')
    inv = {int(p): i for i, p in enumerate(pos[k])}
    inside = [(inv[r], c) for r, c in where if r in inv]
    outside = [(r, c) for r, c in where if r not in inv]
    # rows with data: exactly the small problem (plus the parent's evidence)
    v = w.copy()
    v.mats[t] = before[pos[k]]
    blind = World()
    blind.mats[t], blind.prior[t] = before, prior
    if only is not None:
        ly = W.layers[1]
        fs = [W.mats[n] for n in ly['factors']]
        v.mats['p0'], v.mats['p1'] = fs[0][pos[k]], fs[1]
        v.layers.append(dict(child=t, factors=['p0', 'p1'], model=ly['model'], lbda=ly['lbda'], q=None))
        blind.mats['p0'], blind.mats['p1'] = fs
        blind.layers.append(dict(child=t, factors=['p0', 'p1'], model=ly['model'], lbda=ly['lbda'], q=None))
    margin = 1e-4 if w.layers[0]['model'] == 'MAX-AND' else 1e-6
    mon.judge(v, t, before[pos[k]], after[pos[k]], inside, margin=margin)
    obs.count('observed_rows_judged', len(inside))
    mon.judge(blind, t, before, after, outside, margin=margin)
    obs.count('unobserved_rows_judged', len(outside))
    return k


def run(case, obs):
    rng = util.rng_of('c09', case)
    model, K = case['model'], case['K']
    label = '%s %dD' % (model, K)
    mon = FlipMonitor(obs, label)
    for trial in range(9):
        w, names = small(rng, model, K)
        if trial == 0:      # nothing observed at all
            w.mats['X'][:] = 0
            obs.count('fully_missing')
        W, pos, sizes = pad(rng, w, names, None if trial else [1] * K)
        lab = '%s, data %s embedded in %s' % (label, list(w.mats['X'].shape), list(sizes))
        k = None
        if trial % 3 == 2 and model in ref.EIGHT:
            # a parent layer on one of the factors
            k = int(rng.integers(K))
            n, l = W.mats[names[k]].shape
            W.add_layer(names[k], [util.pm(rng, (n, 2)), util.pm(rng, (l, 2))], ref.EIGHT[int(rng.integers(8))],
                        float(rng.choice([.5, 25.])))
        with Api('building ' + lab):
            W.realise()
        if len(W.layers) > 1:
            # probe only the factor that has the parent
            for rep in range(4):
                W.layers[1]['lbda'] = float(rng.choice([0., .5, 25.]))
                probe(obs, mon, rng, w, W, names, pos, lab + ', with parent', only=k)
                obs.count('with_parent')
            W.machine.layers.remove(W.lobj[1])
            W.obj[names[k]].parents.remove(W.lobj[1])
            for n in W.layers[1]['factors']:
                del W.mats[n], W.obj[n], W.prior[n]
            W.layers.pop()
            W.lobj.pop()
            W.obj[names[k]].sampling_fct = None
        for rep in range(4):
            probe(obs, mon, rng, w, W, names, pos, lab)
        obs.saw(label, core.digest(w.mats['X'], *[w.mats[n] for n in names]), [p.tolist() for p in pos], sizes)
        dispersion(obs, rng, w, W, names, pos, model, lab)
        if model == 'qL-AND':
            thresholds(obs, rng, w, W, names, pos, lab)
    # scattered holes: the same as if the cells did not exist (explicit recount over the observed cells)
    for trial in range(4):
        w, names = small(rng, model, K)
        w.mats['X'][rng.random(w.mats['X'].shape) < .5] = 0
        w.realise()
        ident = [np.arange(d) for d in w.mats['X'].shape]
        for rep in range(3):
            probe(obs, mon, rng, w.copy(), w, names, ident, label + ' scattered holes')
        obs.count('scattered')

    def collect(m, k):
        w, names = small(rng, model, K)
        while w.mats[names[0]].shape[1] == 1 and model == 'MAX-AND':
            w, names = small(rng, model, K)
        W, pos, sizes = pad(rng, w, names, [20] * K if K == 2 else [6] * K)
        W.realise()
        for _ in range(40 * k):
            lb = np.append(rng.uniform(.4, .7, len(w.layers[0]['lbda']) - 1), .3) if model == 'MAX-AND' else float(rng.choice([.2, .6, .06]))
            w.layers[0]['lbda'] = W.layers[0]['lbda'] = lb
            probe(obs, m, rng, w, W, names, pos, label + ' (frequency)')
    calibrated(obs, label, collect)
    obs.sample = {'model': model, 'small': list(w.mats['X'].shape), 'padded': list(sizes), 'positions': [p.tolist() for p in pos]}


def dispersion(obs, rng, w, W, names, pos, model, label):
    prior = [(1, 1), (2., .5)][int(rng.integers(2))] if model != 'MAX-AND' else (1, 1)
    got = []
    for V in (w, W):
        V.fixed = set(V.mats)
        V.mask = {}
        if V is w:
            V.realise()
        V.push()
        V.fix_lbdas(False)
        V.lobj[0].lbda.beta_prior = prior
        with Api('Machine.infer, factors fixed (%s)' % label):
            util.sweeps(V.machine, 1)
        got.append(np.array(V.lobj[0].lbda.val, dtype=float))
    fs = [w.mats[n] for n in names]
    if model == 'MAX-AND':
        for g, what in zip(got, ('original', 'padded')):
            obs.ok(g.shape == (fs[0].shape[1] + 1,), 'dispersion', lambda: '%s: dispersion of the %s machine has shape %s' % (label, what, g.shape))
            good, exp = ref.max_and_dispersions(w.mats['X'], fs[0], fs[1], g)
            obs.ok(good is not False, 'dispersion',
                   lambda: '%s: dispersion of the %s machine %s, expected %s' % (label, what, g.tolist(), exp.tolist()))
    else:
        e = ref.dispersion(w.mats['X'], w.layer_product(w.layers[0], fs), prior)
        for g, what in zip(got, ('original', 'padded')):
            obs.ok(abs(float(g) - e) < 1e-7 * (1 + e), 'dispersion',
                   lambda: '%s: dispersion of the %s machine %r, of the observed data %r' % (label, what, float(g), e))
    obs.count('dispersion_pairs')


def thresholds(obs, rng, w, W, names, pos, label):
    """with (almost) deterministic conditionals the thresholds of observed columns are those of the small problem"""
    from lfmv.checks.c18 import conditional
    W.fixed = set(W.mats)
    W.push()
    W.fix_lbdas()
    lr = W.lobj[0]
    lr.q.fixed = False
    lr.gamma = 1
    lr.lbda.val = 60.
    cond = conditional(w.mats['X'], w.mats[names[0]], w.mats[names[1]], 60., 1)
    with Api('Machine.infer, thresholds (%s)' % label):
        util.sweeps(W.machine, 3)
    tr = np.asarray(lr.q.trace).reshape(3, -1)
    for i, p in enumerate(pos[1]):
        for v in range(5):
            if cond[v, i] > 1 - 1e-10:
                obs.ok(bool((tr[:, p] == v + 1).all()), 'threshold', lambda: '%s: column %d must have threshold %d, drawn %s' % (label, i, v + 1, tr[:, p]))
                obs.count('qL_thresholds')
            if cond[v, i] < 1e-12:
                obs.ok(not (tr[:, p] == v + 1).any(), 'threshold', lambda: '%s: column %d cannot have threshold %d' % (label, i, v + 1))
                obs.count('qL_thresholds')
