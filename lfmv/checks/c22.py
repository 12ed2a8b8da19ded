import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api

PROPERTY = 'C22'
RULE = ('one case = a random sequence of add_matrix/add_layer calls (36 operator pairs and the special models, matrices by '
        'value of several types or by shape, up to three levels, several machines side by side); after every call the '
        'whole family structure is compared with an independent description of what was asked for. '
        'Distinct non-trivial = distinct (structure, model, shapes).')
REQUIRED = {'layers_added': 300, 'matrices_added': 80, 'members_checked': 1500, 'special_layers': 12, 'by_shape': 20,
            'two_parents': 20, 'three_d': 60, 'levels3': 8, 'initial_entries': 20000, 'rejected': 10, 'after_inference': 6, 'equal_axes': 60,
            'many_latent': 20, 'long_factors': 20, 'initial_statistics': 60, 'written_in_place': 500, 'special_shapes': 200, 'very_long_factors': 40}
SPECIAL = ['MAX-AND', 'qL-AND', 'OR-AND-IBP']


def cases(tier, seed):
    return [{'seed': [seed, i], 'n': 12} for i in range(24 if tier == 'quick' else 240)]


class Description(object):
    def __init__(self):
        self.layers = []      # (layer, child, shape, latent, special)
        self.free = []        # matrices of add_matrix
        self.known = {}       # id(matrix) -> (matrix, digest of value)

    def remember(self, m):
        self.known[id(m)] = (m, core.digest(m.val))


def pm01(a):
    return set(np.unique(a).tolist()) <= {-1, 1}


def check_matrix(obs, f, shape, what):
    v = f()
    obs.ok(v.shape == tuple(shape), 'shape', '%s has shape %s, expected %s' % (what, v.shape, tuple(shape)))
    obs.ok(v.dtype == np.int8 and pm01(v), 'domain', '%s: not an int8 array over {-1,1}' % what)
    obs.ok(f.fixed_entries.shape == v.shape and not np.any(f.fixed_entries), 'mask', '%s: fixed entries in a new matrix' % what)
    obs.ok(f.bernoulli_prior == .5 and not f.fixed, 'prior', '%s: new matrix with prior %r, fixed=%r' % (what, f.bernoulli_prior, f.fixed))


def structure(obs, m, d):
    """the complete family structure against the description"""
    obs.ok([x is y[0] for x, y in zip(m.layers, d.layers)] == [True] * len(d.layers) and len(m.layers) == len(d.layers),
           'layers', 'machine.layers are not the added layers in order')
    exp = [f for lr in d.layers for f in lr[0].factors] + d.free + [lr[0].q for lr in d.layers if lr[4] == 'qL-AND']
    got = list(m.members)
    obs.ok(len(got) == len(exp) and {id(x) for x in got} == {id(x) for x in exp}, 'members',
           'members: %d matrices listed (%d different), expected %d' % (len(got), len({id(x) for x in got}), len(exp)))
    obs.count('members_checked', len(exp))
    lb = list(m.lbdas)
    obs.ok(len(lb) == len(d.layers) and all(a is b[0].lbda for a, b in zip(lb, d.layers)) and len({id(x) for x in lb}) == len(lb),
           'lbdas', 'dispersions are not one per layer in order')
    parents = {}
    for lr, child, shape, L, model in d.layers:
        K = len(shape)
        parents.setdefault(id(child), (child, []))[1].append(lr)
        obs.ok(lr.child is child, 'child', 'layer lost its child')
        obs.ok(lr.machine is m, 'machine', 'layer belongs to another machine')
        obs.ok(lr.lbda.layer is lr, 'lbda_layer', 'dispersion belongs to another layer')
        obs.ok(len(lr.factors) == K and lr.dimensionality == K and lr.size == L and lr.L == L, 'sizes',
               'layer reports %d factors, dimensionality %r, size %r' % (len(lr.factors), lr.dimensionality, lr.size))
        obs.ok(list(lr) == list(lr.factors) and lr.z is lr.factors[0] and lr.u is lr.factors[1] and (K < 3 or lr.v is lr.factors[2]),
               'names', 'z, u, v are not the factors in order')
        for k, f in enumerate(lr.factors):
            obs.ok(f().shape == (shape[k], L), 'shape', 'factor %d of a layer on %s has shape %s' % (k, shape, f().shape))
            obs.ok(f.layer is lr and f.child_axis == k and f.model == lr.model, 'factor', 'factor %d: wrong layer or axis' % k)
            sib = [g for g in lr.factors if g is not f]
            obs.ok(len(f.siblings) == K - 1 and all(a is b for a, b in zip(f.siblings, sib)), 'siblings',
                   'siblings of factor %d are not the other factors in order' % k)
    for mat in [f for lr in d.layers for f in lr[0].factors] + d.free + [c for c, _ in parents.values()]:
        ps = parents.get(id(mat), (None, []))[1]
        obs.ok(len(mat.parents) == len(ps) and all(a is b for a, b in zip(mat.parents, ps)), 'parents',
               'a matrix lists %d parents, %d were attached (or in another order)' % (len(mat.parents), len(ps)))
    for mat in d.free:
        obs.ok(mat.model is None and mat.layer is None, 'free', 'a matrix outside of layers got a model') if all(
            mat is not f for lr in d.layers for f in lr[0].factors) else None


def shape_of(rng, K):
    """small shapes, some with equal axes, some with a long axis"""
    ds = list(util.dims(rng, K, 1, 9))
    if rng.random() < .3:
        i, j = rng.choice(K, 2, replace=False)
        ds[i] = ds[j] = int(rng.integers(4, 30 if K == 2 else 14))
    if rng.random() < .1:
        ds[int(rng.integers(K))] = int(rng.integers(100, 1200 if K == 2 else 300))
    return tuple(ds)


class Pairs(object):
    """how often do pairs of initial entries agree"""
    def __init__(self):
        self.n = {}

    def add(self, kind, a, b):
        t = self.n.setdefault(kind, [0, 0])
        t[0] += int((a == b).sum())
        t[1] += a.size

    def matrix(self, obs, f):
        v = f()
        for ax in range(v.ndim):        # repetitions at any distance
            n = v.shape[ax]
            if n >= 100:
                w = np.moveaxis(v, ax, 0).reshape(n, -1).astype(float)
                F = np.fft.rfft(w, 2 * n, axis=0)
                s = np.fft.irfft(F * F.conj(), 2 * n, axis=0).sum(axis=1)[:n]
                lag = np.arange(1, n - 40)
                z = s[lag] / np.sqrt((n - lag) * w.shape[1])
                k = int(np.argmax(np.abs(z)))
                obs.ok(abs(z[k]) < 8 or (n - lag[k]) * w.shape[1] < 80, 'initial', lambda: 'randomly initialised %s matrix: entries at distance %d along axis %d agree or disagree too often (z=%.1f)' % (
                    list(v.shape), lag[k], ax, z[k]))
                obs.count('long_distance_statistics')
                obs.count('very_long_factors', n > 600)
        for ax in range(v.ndim):
            if v.shape[ax] > 1:
                k = v.shape[ax] // 2
                w = np.moveaxis(v, ax, 0)
                self.add('neighbours along axis %d' % ax, w[:-1:2][:k], w[1::2][:k])
                self.add('two halves along axis %d' % ax, w[:k], w[k:2 * k])


def values(rng, shape):
    """data in several types"""
    v = rng.integers(-1, 2, size=shape)
    t = [np.int8, np.int8, np.int64, np.float64, np.float32, np.int16][int(rng.integers(6))]
    v = v.astype(t)
    if rng.random() < .3:
        v = np.asfortranarray(v)
    return v


def run(case, obs):
    lom = core.load()
    rng = util.rng_of('c22', case)
    ones = total = 0
    pairs = Pairs()
    machines = []
    for trial in range(case['n']):
        with Api('Machine()'):
            m = lom.Machine()
        d = Description()
        obs.ok(list(m.members) == [] and list(m.lbdas) == [] and list(m.layers) == [], 'new', 'a new machine is not empty')
        level = {}
        for step in range(int(rng.integers(2, 7))):
            mats = d.free + [f for lr in d.layers for f in lr[0].factors]
            if not mats or rng.random() < .25:
                K = int(rng.choice([2, 2, 3]))
                shape = shape_of(rng, K)
                if rng.random() < .3:
                    with Api('add_matrix(shape=%s)' % (shape,)):
                        x = m.add_matrix(shape=shape)
                    check_matrix(obs, x, shape, 'matrix of given shape')
                    ones, total = ones + int((x() == 1).sum()), total + x().size
                    obs.count('by_shape')
                else:
                    v = values(rng, shape)
                    before = core.digest(v)
                    fx = bool(rng.random() < .7)
                    with Api('add_matrix(%s)' % v.dtype):
                        x = m.add_matrix(v, fixed=fx)
                    obs.ok(x().dtype == np.int8 and x().shape == shape and np.array_equal(x(), v), 'value',
                           'a matrix of type %s is stored with other values' % v.dtype)
                    obs.ok(core.digest(v) == before, 'caller', 'the given array was changed')
                    obs.ok(x.fixed == fx, 'fixed', 'fixed flag %r is stored as %r' % (fx, x.fixed))
                d.free.append(x)
                d.remember(x)
                level[id(x)] = 0
                obs.count('matrices_added')
            else:
                child = None
                L = int(rng.choice([1, 2, 3, 5, 8])) if rng.random() < .93 else int(rng.integers(60, 300))
                obs.count('many_latent', L >= 60)
                model = ref.PAIRS[int(rng.integers(36))]
                if rng.random() < .8:
                    c = [x for x in mats if len(x.parents) < 2]
                    deep = [x for x in c if level[id(x)] > 0 or x.parents]
                    if deep and rng.random() < .5:
                        c = deep
                    if c:
                        child = c[int(rng.integers(len(c)))]
                if child is not None and child.layer is None and not child.parents and child().ndim == 2 and rng.random() < .25:
                    model = SPECIAL[int(rng.integers(3))]
                if child is None and rng.random() < .4:
                    model = SPECIAL[int(rng.integers(3))]
                shape = child().shape if child is not None else shape_of(rng, 2 if model in SPECIAL else int(rng.choice([2, 3])))
                kept = core.digest(child.val) if child is not None else None
                old = child.val.copy() if child is not None else None
                flags = (child.fixed, child.fixed_entries.copy(), child.bernoulli_prior) if child is not None else None
                with Api('add_layer(%s, shape %s)' % (model, shape)):
                    if child is not None:
                        lr = m.add_layer(latent_size=L, child=child, model=model)
                    else:
                        lr = m.add_layer(latent_size=L, shape=shape, model=model)
                        child = lr.child
                        obs.count('by_shape')
                if old is not None:
                    sgn = -1 if lr.invert_data else 1
                    obs.ok(np.array_equal(child.val, sgn * old), 'child_value', '%s: adding a layer changed its child other than by the inversion' % model)
                    obs.ok(child.fixed == flags[0] and np.array_equal(child.fixed_entries, flags[1]) and child.bernoulli_prior == flags[2],
                           'child_flags', 'adding a layer changed flags of its child')
                else:
                    check_matrix(obs, child, shape, 'child of a layer given by shape')
                    level[id(child)] = 0
                d.remember(child)
                d.layers.append((lr, child, tuple(shape), L, lr.model))
                obs.ok(lr.model == model or model not in SPECIAL + ref.EIGHT, 'model', '%s was added as %s' % (model, lr.model))
                obs.ok(lr.no_samples == 1, 'samples', 'a new layer reports %r samples' % lr.no_samples)
                for k, f in enumerate(lr.factors):
                    check_matrix(obs, f, (shape[k], L), 'factor %d' % k)
                    ones, total = ones + int((f() == 1).sum()), total + f().size
                    obs.ok(all(f.val is not g.val and f is not g for g in mats), 'shared', 'factors share memory with another matrix')
                    d.remember(f)
                    level[id(f)] = level[id(child)] + 1
                for k, f in enumerate(lr.factors):
                    pairs.matrix(obs, f)
                    obs.count('long_factors', shape[k] >= 100)
                    for j in range(k):
                        if lr.factors[j].val.shape == f.val.shape:
                            pairs.add('the same place of factors %d and %d' % (j, k), lr.factors[j].val, f.val)
                            obs.count('equal_axes')
                    for g in mats:      # factors of other layers
                        if g.val.shape == f.val.shape and f.val.size > 3 and g.layer is not None:
                            pairs.add('the same place of factors of two layers', g.val, f.val)
                v = lr.lbda()
                if lr.model == 'MAX-AND':
                    v = np.asarray(v, dtype=float)
                    obs.ok(v.shape == (L + 1,) and (v > 0).all() and (v < 1).all() and (v[-1] <= v).all(), 'lbda',
                           'initial dispersions of MAX-AND with %d dimensions: %s' % (L, v))
                else:
                    obs.ok(np.ndim(v) == 0 and np.isfinite(v) and 0 <= float(v) < 5, 'lbda', 'initial dispersion is %r' % (v,))
                obs.ok(not lr.lbda.fixed, 'lbda', 'a new dispersion is fixed')
                if lr.model == 'qL-AND':
                    q = lr.q()
                    obs.ok(q.shape == (1, shape[1]) and q.min() >= 1 and q.max() <= 5, 'q', 'initial thresholds: %s' % q)
                    obs.ok(lr.q.model == 'qL-AND', 'q', 'thresholds belong to no layer')
                obs.count('layers_added')
                obs.count('special_layers', model in SPECIAL)
                obs.count('two_parents', len(child.parents) == 2)
                obs.count('three_d', len(shape) == 3)
                obs.count('levels3', level[id(lr.factors[0])] >= 3)
                obs.saw(model, tuple(shape), L, len(d.layers), len(child.parents))
            structure(obs, m, d)
            for mat, dig in d.known.values():
                obs.ok(core.digest(mat.val) == dig, 'unrelated', 'adding a layer or matrix changed the values of another matrix')
        machines.append((m, d))
        for bad in ({'latent_size': 2}, {'latent_size': 2, 'model': 'OR-AND'}):
            try:
                with core.quiet():
                    m.add_layer(**bad)
            except Exception:
                obs.count('rejected')
                continue
            obs.fail('no_shape', 'a layer without child and shape was accepted')
        structure(obs, m, d)
        # inference does not change the structure
        if trial % 4 == 0 and all(len(lr[1].parents) < 2 or lr[1].layer is None or lr[1].layer.dimensionality == 2 for lr in d.layers) and \
                all(lr[4] in ref.EIGHT and all(not f.parents for f in lr[0].factors) for lr in d.layers):
            for x in d.free:
                x.fixed = True
            if d.layers:
                with Api('infer'):
                    util.sweeps(m, 1)
                structure(obs, m, d)
                obs.count('after_inference')
    for m, d in machines:       # machines built side by side stay separate
        structure(obs, m, d)
        ids = {id(x) for x in m.members}
        obs.ok(all(ids.isdisjoint({id(y) for y in n.members}) for n, _ in machines if n is not m), 'separate', 'two machines share a matrix')
    # writing into the arrays of one matrix reaches no other one
    every = [x for m, _ in machines for x in m.members]
    state = [(core.digest(x.val), core.digest(x.fixed_entries)) for x in every]
    for i in rng.permutation(len(every))[:40]:
        x = every[int(i)]
        v, f = x.val.copy(), x.fixed_entries.copy()
        x.val[...] = -v if v.any() else 1
        x.fixed_entries[...] = 1 - f
        obs.ok(all((core.digest(y.val), core.digest(y.fixed_entries)) == t for y, t in zip(every, state) if y is not x), 'shared',
               'writing into the arrays of one matrix changed another one')
        x.val[...], x.fixed_entries[...] = v, f
        obs.count('written_in_place')
    # special models of any shape
    for model in SPECIAL:
        for shape in ((4, 1), (1, 4), (1, 1), (3, 2), (2, 300), (300, 2)):
            with Api('building a %s layer' % model):
                m = lom.Machine()
                lr = m.add_layer(latent_size=2, child=m.add_matrix(rng.integers(-1, 2, size=shape), fixed=True), model=model)
            for k, f in enumerate(lr.factors):
                check_matrix(obs, f, (shape[k], 2), 'factor %d of a %s layer on %s' % (k, model, shape))
            if model == 'qL-AND':
                obs.ok(not lr.q.fixed and lr.q.val.shape == (1, shape[1]) and not np.any(lr.q.fixed_entries), 'q', 'new thresholds for data %s are fixed or misshapen' % (shape,))
            obs.ok(not lr.lbda.fixed, 'lbda', 'a new dispersion is fixed')
            obs.count('special_shapes')
    # long matrices
    for i in range(3):
        shape = (int(rng.integers(650, 2500)), int(rng.integers(1, 4)))
        with Api('building'):
            lr = lom.Machine().add_layer(latent_size=shape[1], shape=(shape[0], 2) if i else (2, shape[0]), model=ref.EIGHT[int(rng.integers(8))])
        pairs.matrix(obs, lr.factors[0 if i else 1])
        # no two matrices built one after the other look alike
        with Api('building'):
            other = lom.Machine().add_layer(latent_size=shape[1], shape=(shape[0], 2), model='OR-AND')
        pairs.add('the same place of long factors of two machines', lr.factors[0 if i else 1].val, other.factors[0].val)
    # matrices of one shape
    for shape in ((1, 1), (1, 30), (30, 1), (2, 20), (5, 8), (300, 2)):
        on = n = 0
        for i in range(60):
            m = lom.Machine()
            with Api('building'):
                if i % 2:
                    xs = [m.add_matrix(shape=shape)]
                else:
                    xs = m.add_layer(latent_size=shape[1], shape=(shape[0], shape[0]), model=ref.EIGHT[i // 2 % 8]).factors
            on, n = on + sum(int((x() == 1).sum()) for x in xs), n + sum(x().size for x in xs)
        z = (on - n / 2.) / np.sqrt(n / 4.)
        obs.ok(abs(z) < 6.5, 'initial', 'randomly initialised matrices %s: %d of %d entries on' % (list(shape), on, n))
        obs.count('initial_shapes')
    obs.count('initial_entries', total)
    for what, (k, n) in [('on', (ones, total))] + sorted(pairs.n.items()):
        if n >= 200:
            z = (k - n / 2.) / np.sqrt(n / 4.)
            obs.ok(abs(z) < 8, 'initial', 'randomly initialised entries: %d of %d %s' % (k, n, what if what == 'on' else 'agree: ' + what))
            obs.count('initial_statistics')
    obs.sample = {'layers': [(l[4], list(l[2]), l[3]) for l in d.layers], 'members': len(m.members)}
