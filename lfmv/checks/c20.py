import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api

PROPERTY = 'C20'
RULE = ('one case = LOM_predictive for one operator pair, or tensorm_reconstruct for one coding, or the grid search with the experiment '
        'recorded in place of a process pool. The machine an experiment builds is observed at the end of its inference; the reported '
        'numbers are recomputed from its factor means by explicit probabilities, the true values and the held-out mask. '
        'Distinct non-trivial = distinct (function, model, data, mask, result).')
REQUIRED = {'predictive': 150, 'pairs': 36, 'inverted_data': 40, 'tensor': 12, 'arguments_compared': 300, 'intermediate_accuracies': 60,
            'repeated_on_same_split': 30, 'split_with_missing': 25, 'codings': 12, 'annealed': 20, 'informative_truth': 10, 'missing_tensors': 3, 'returned_layers': 3, 'balanced_grids': 1}


def cases(tier, seed):
    out = []
    for r in range(1 if tier == 'quick' else 12):
        for i in range(0, 36, 2):
            out.append({'kind': 'predictive', 'models': ref.PAIRS[i:i + 2], 'seed': [seed, r]})
        for i, coding in enumerate(['int8pm', 'int8', 'bool', 'int64', 'int64pm', 'float', 'int8pm,missing', 'floatpm,missing']):
            out.append({'kind': 'tensor', 'coding': coding, 'seed': [seed, r]})
        for i in range(6):
            out.append({'kind': 'grid', 'seed': [seed, r, i]})
        for i in range(3):
            out.append({'kind': 'truth', 'seed': [seed, r, i]})
    return out


class Spy(object):
    """records the machines whose inference is run (and optionally shortens it), by way of Machine.infer"""

    def __init__(self, short=True):
        self.short = short

    def __enter__(self):
        lom = core.load()
        self.cls = lom.Machine
        self.real = real = self.cls.infer
        spy = self
        spy.seen = []

        def infer(self, *a, **kw):
            spy.seen.append(dict(machine=self, kw=dict(kw), anneal=bool(self.anneal), data=np.array(self.layers[0].child.val), lbda=self.layers[0].lbda.val))
            if spy.short:
                kw.update(burn_in_min=2, burn_in_max=3, no_samples=3 if spy.short is True else spy.short)
            return real(self, *a, **kw)
        self.cls.infer = infer
        return self

    def __exit__(self, *_):
        self.cls.infer = self.real
        return False


def fitted(obs, spy, what):
    obs.ok(len(spy.seen) == 1, 'machines', lambda: '%s ran %d inferences' % (what, len(spy.seen)))
    return spy.seen[0]['machine'], spy.seen[0]['machine'].layers[0]


def predict(lr, model):
    """probabilities of the layer's child, from the traces"""
    return ref.p_product([(np.asarray(f.trace).astype(float).mean(axis=0) + 1) / 2. for f in lr.factors], lr.model)


def experiment(obs, rng, exp, model, what, short):
    from lom import experiments
    X, Xt, mask, _, L, _, lb, anneal = exp
    keep = [np.array(a) for a in (X, Xt, mask)]
    ret_m = [None, True, False][int(rng.integers(3))]
    with Spy(short) as spy, Api(what):
        res = experiments.LOM_predictive(exp) if ret_m is None else experiments.LOM_predictive(exp, return_machine=ret_m)
    for a, b, n in zip((X, Xt, mask), keep, ('the data', 'the training data', 'the mask')):
        obs.ok(np.array_equal(a, b) and a.dtype == b.dtype, 'argument', lambda: '%s changed %s: %s' % (what, n, util.diff_at(a, b)))
        obs.count('arguments_compared')
    machine, lr = fitted(obs, spy, what)
    inv = bool(lr.invert_data)
    sgn = -1 if inv else 1
    obs.ok(np.array_equal(spy.seen[0]['data'], sgn * keep[1]), 'trained_on', what + ': the machine was not trained on the training data')
    obs.ok(np.array_equal(lr.child.val, sgn * keep[1]), 'trained_on', what + ': the machine\'s data changed')
    obs.ok(spy.seen[0]['anneal'] == bool(anneal), 'anneal', what + ': annealing %s' % spy.seen[0]['anneal'])
    obs.ok(abs(float(spy.seen[0]['lbda']) - lb) < 1e-12, 'dispersion', what + ': initial dispersion %s' % spy.seen[0]['lbda'])
    obs.ok(all(f.val.shape == (n, L) for f, n in zip(lr.factors, X.shape)), 'size', what + ': factor shapes')
    obs.ok(lr.model in ref.EIGHT, 'model', what + ': fitted as ' + str(lr.model))
    p = predict(lr, model)
    hold = keep[2]
    x = keep[0][hold]
    truth = (x == -1) if inv else (x == 1)
    margin = np.abs(p[hold] - .5) < 1e-6
    hit = ((p[hold] > .5) == truth)
    lo, hi = (hit & ~margin).mean(), (hit | margin).mean()
    row = res[0] if ret_m is not False else res
    acc = float(row[0])
    obs.ok(lo - 1e-12 <= acc <= hi + 1e-12, 'accuracy', lambda: '%s: reported accuracy %.6f on %d held-out entries, is %.6f%s' % (
        what, acc, hold.sum(), hit.mean(), '' if lo == hi else ' (%.6f..%.6f)' % (lo, hi)))
    obs.ok(row[1] == model and int(row[2]) == L, 'row', lambda: '%s: returned %s' % (what, row))
    if ret_m is not False:
        obs.ok(len(res[1]) == X.ndim and all(np.allclose(a, np.asarray(f.trace).astype(float).mean(axis=0)) for a, f in zip(res[1], lr.factors)),
               'means', what + ': returned factor means are not those of the fitted layer')
    obs.count('predictive')
    obs.count('inverted_data', inv)
    obs.count('annealed', bool(anneal))
    obs.count('intermediate_accuracies', 0 < acc < 1)
    obs.saw(model, core.digest(*keep), acc)
    return acc


def make_split(rng, X):
    from lom import experiments
    miss = rng.random() < .5
    if miss:
        X = X.copy()
        X[rng.random(X.shape) < .2] = 0
    if rng.random() < .5:
        with Api('split_train_test'):
            Xt, mask = experiments.split_train_test(X, split=float(rng.choice([.2, .4])))
        if not mask.any():
            mask = None
    else:
        mask = None
    if mask is None:
        mask = (rng.random(X.shape) < .3) & (X != 0)
        if not mask.any():
            X.flat[0] = 1
            mask.flat[0] = True
        Xt = np.where(mask, 0, X).astype(np.int8)
    return X, Xt, mask, miss


def predictive_case(case, obs):
    rng = util.rng_of('c20', case)
    for model in case['models']:
        for trial in range(3):
            K = 2 if trial < 2 else 3
            ds = util.dims(rng, K, 2, 7 if K == 2 else 4)
            L = int(rng.choice([1, 2, 3]))
            X = ref.product([util.pm(rng, (n, L), .5) for n in ds], model).astype(np.int8)
            X[rng.random(ds) < .1] *= -1
            X, Xt, mask, miss = make_split(rng, X)
            lb = float(rng.choice([.05, .1, 1.]))
            anneal = bool(rng.random() < .25)
            what = 'LOM_predictive %s %s L=%d lbda %g%s' % (model, list(ds), L, lb, ' annealed' if anneal else '')
            experiment(obs, rng, (X, Xt, mask, model, L, 0, lb, anneal), model, what, True)
            if trial == 0:
                # another model and the same one again on the same split
                other = ref.PAIRS[int(rng.integers(36))]
                for mod in (other, model):
                    experiment(obs, rng, [X, Xt, mask, mod, L, 0, lb, anneal], mod, what + ' then ' + mod, True)
                    obs.count('repeated_on_same_split')
            obs.count('split_with_missing', miss)
        obs.count('pairs')
    obs.sample = {'models': case['models'], 'shape': list(ds), 'L': L, 'held_out': int(mask.sum())}


def truth_case(case, obs):
    """the full-length experiment: a model that generated the data predicts it"""
    from lom import experiments
    rng = util.rng_of('c20t', case)
    for model in [ref.PAIRS[int(k)] for k in rng.integers(36, size=2)]:
        good = []
        for rep in range(3):
            fs = [util.pm(rng, (n, 2), .5) for n in (14, 12)]
            X = ref.product(fs, model).astype(np.int8)
            mask = rng.random(X.shape) < .15
            Xt = np.where(mask, 0, X).astype(np.int8)
            good.append(experiment(obs, rng, (X, Xt, mask, model, 2, 0, .1, False), model, 'full LOM_predictive ' + model, False))
            obs.count('informative_truth')
    obs.sample = {'model': model, 'accuracies': [round(g, 3) for g in good]}


def tensor_case(case, obs):
    from lom import experiments
    rng = util.rng_of('c20x', case)
    coding = case['coding']
    for trial in range(3):
        ds = util.dims(rng, 3, 2, 5)
        L = int(rng.choice([1, 2, 3]))
        pm = ref.product([util.pm(rng, (n, L), .5) for n in ds], 'OR-AND').astype(np.int8)
        if trial == 2:
            pm[:] = 1 if rng.random() < .5 else -1
        if 'missing' in coding:
            pm[rng.random(ds) < .25] = 0
            pm.flat[:2] = (-1, 0)       # recognisable as coded -1/1
            obs.count('missing_tensors')
        X = {'int8pm,missing': pm, 'floatpm,missing': pm.astype(float),
             'int8pm': pm, 'int8': ((pm + 1) // 2).astype(np.int8), 'bool': pm == 1, 'int64': ((pm.astype(np.int64) + 1) // 2),
             'int64pm': pm.astype(np.int64), 'float': (pm + 1) / 2.}[coding].copy()
        keep = X.copy()
        what = 'tensorm_reconstruct, %s data %s, L=%d' % (coding, list(ds), L)
        flag = bool(trial == 1 or rng.random() < .2)
        with Spy(True) as spy, Api(what):
            res = experiments.tensorm_reconstruct(X, L, return_layer=True) if flag else experiments.tensorm_reconstruct(X, L)
        obs.ok(np.array_equal(X, keep) and X.dtype == keep.dtype, 'argument', what + ': its data changed')
        obs.count('arguments_compared')
        machine, lr = fitted(obs, spy, what)
        obs.ok(np.array_equal(spy.seen[0]['data'], pm) and lr.child.val.dtype == np.int8, 'coding', lambda: '%s: the machine was trained on values %s (%s)' % (
            what, np.unique(spy.seen[0]['data']), lr.child.val.dtype))
        obs.ok(lr.model == 'OR-AND' and not lr.invert_data and lr.size == L and lr.child.fixed, 'model', what + ': wrong layer')
        obs.count('tensor')
        obs.count('codings')
        if flag:
            obs.ok(res is lr, 'layer', what + ': returned layer is not the fitted one')
            for f in lr.factors:
                obs.ok(np.array_equal(f.val, np.asarray(f.trace)[-1]), 'layer', what + ': a factor of the returned layer is not in its last sampled state')
            obs.count('returned_layers')
            continue
        obs.ok(len(res) == 3 and len(res[1]) == 3, 'result', what + ': result structure')
        mean = [np.asarray(f.trace).astype(float).mean(axis=0) for f in lr.factors]
        obs.ok(all(np.allclose(a, b, atol=1e-9) for a, b in zip(res[1], mean)), 'means', what + ': factor means')
        obs.ok(np.asarray(res[0]).shape == ds and np.allclose(res[0], predict(lr, 'OR-AND'), rtol=0, atol=3e-6), 'reconstruction', what + ': reconstruction')
        maps = [(ref.product([np.where(m == 0, tie, np.sign(m)).astype(int) for m in mean], 'OR-AND') + 1) / 2. for tie in (-1, 1)]
        obs.ok(any(np.array_equal(np.asarray(res[2], dtype=float), e) for e in maps), 'map', what + ': MAP reconstruction')
        obs.saw(coding, core.digest(keep, res[0]))
    obs.sample = {'coding': coding, 'shape': list(ds), 'L': L}


class NoPool(object):
    """stands in for the process pool: same mapping, in order, in this process; arguments copied as a pool does"""
    log = []

    def __init__(self, *a, **kw):
        pass

    def map(self, f, seq):
        import copy
        out = []
        for x in list(seq):
            NoPool.log.append(x)
            out.append(f(copy.deepcopy(x)))
        return out

    def close(self):
        pass

    def join(self):
        pass


def grid_case(case, obs):
    import multiprocessing
    from lom import experiments
    import lom.auxiliary_functions as lib
    rng = util.rng_of('c20g', case)
    default = case['seed'][-1] == 1         # the default is all canonical models
    models = sorted(lib.canonical_loms()) if default else [ref.PAIRS[int(k)] for k in rng.choice(36, size=3, replace=False)]
    X = util.data(rng, (8, 7), .5, [.1, 0][case['seed'][-1] // 2 % 2] if rng.random() < .7 else .3)
    balanced = bool(case['seed'][-1] % 2 == 0 or rng.random() < .3)
    if rng.random() < .6:           # a view into an array of the caller
        X = np.ascontiguousarray(X.T).T if rng.random() < .5 else np.pad(X, 1, mode='constant', constant_values=1)[1:-1, 1:-1]
    keep = X.copy()
    Ls, idx = [1, 3], [0, 1]
    real = multiprocessing.Pool
    NoPool.log = []
    what = 'LOM_hyperparms_parallel_gridsearch'
    try:
        multiprocessing.Pool = NoPool
        with Spy(True) as spy, Api(what):
            df, means = experiments.LOM_hyperparms_parallel_gridsearch(X, machines=None if default else models, L_inits=Ls, random_idxs=idx, lbda_init=.2, balanced=balanced,
                                                                       anneal=False)
    finally:
        multiprocessing.Pool = real
    obs.ok(np.array_equal(X, keep), 'argument', what + ' changed its data')
    obs.count('arguments_compared')
    want = sorted((m, l) for m in models for l in Ls for _ in idx)
    got = sorted((r['LOM'], int(r['L'])) for _, r in df.iterrows())
    obs.ok(got == want, 'configurations', lambda: '%s: configurations %s' % (what, got))
    obs.ok(len(means) == len(df), 'configurations', what + ': rows and factor means')
    if not NoPool.log:      # run in other processes: their machines cannot be observed
        obs.count('unobserved_pool')
        return
    obs.ok(len(spy.seen) == len(df), 'configurations', what + ': rows and machines')
    splits = {core.digest(np.where(s['machine'].layers[0].invert_data, -1, 1) * s['data']) for s in spy.seen}
    obs.ok(len(splits) == 1, 'splits', what + ': experiments were trained on different splits')
    s0 = spy.seen[0]
    base = s0['data'] * (-1 if s0['machine'].layers[0].invert_data else 1)
    mask = (base == 0) & (keep != 0)
    obs.ok(np.array_equal(np.where(mask, 0, keep), base), 'splits', what + ': training data differ from the data on the training entries')
    if balanced:
        pos, neg = int((keep[mask] == 1).sum()), int((keep[mask] == -1).sum())
        S = int((keep != 0).sum() * .1 * .5)
        if S < min((keep == 1).sum(), (keep == -1).sum()):
            obs.ok(pos == neg == S, 'balanced', '%s: balanced split holds out %d positive and %d negative entries, expected %d' % (what, pos, neg, S))
            obs.count('balanced_grids')
    if mask.any():
        for (_, r), s in zip(df.iterrows(), spy.seen):
            lr = s['machine'].layers[0]
            p = predict(lr, r['LOM'])[mask]
            truth = keep[mask] == (-1 if lr.invert_data else 1)
            hit, margin = (p > .5) == truth, np.abs(p - .5) < 1e-6
            acc = float(r['test accuracy'])
            obs.ok((hit & ~margin).mean() - 1e-12 <= acc <= (hit | margin).mean() + 1e-12, 'accuracy', lambda: '%s: %s L=%s reported %.4f, is %.4f' % (what, r['LOM'], r['L'], acc, hit.mean()))
            obs.count('grid_experiments')
    obs.sample = {'models': models, 'rows': len(df), 'held_out': int(mask.sum())}


def run(case, obs):
    {'predictive': predictive_case, 'tensor': tensor_case, 'grid': grid_case, 'truth': truth_case}[case['kind']](case, obs)
