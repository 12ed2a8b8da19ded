import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.world import World, FlipMonitor, calibrated, one_per_row, several_per_row, judge_rows, together

PROPERTY = 'C07'
RULE = ('cases: (a) single-entry updates of either MAX-AND factor judged against the explicit max-probability '
        'likelihood, dispersions in any order incl. ties and user-set ones, also over several sweeps while dispersions '
        'are updated in between; (b) dispersion updates against a naive greedy recount (every resolution of ties '
        'allowed); (c) outputs of all techniques against explicit probabilities. Distinct non-trivial = distinct '
        '(kind, data, factors, dispersions).')
REQUIRED = {'pairs_of_entries': 10, 'must_flip_informative': 1200, 'chance_flips': 1000, 'rows_one_by_one': 300, 'rows_depending_on_earlier_updates': 6, 'dispersion_updates': 250, 'outputs': 400,
            'unsorted': 60, 'ties_in_dispersion': 10, 'sweeps_with_moving_dispersion': 100, 'overlapping': 100, 'deep': 100, 'wide': 10, 'large_data': 3, 'large_uncovered': 2, 'deep_dispersions': 5, 'nearly_cancelling': 40}


def cases(tier, seed):
    out = []
    for r in range(8 if tier == 'quick' else 80):
        for k in ('flip', 'chain', 'disp', 'out', 'freq'):
            out.append({'kind': k, 'seed': [seed, r]})
    return out


def lbdas(rng, L, obs=None):
    k = int(rng.integers(6))
    if k == 4:      # close to certain, close to impossible
        v = rng.choice([.9999, .999, .99, .5, .01, .001, 1e-4], L + 1)
    elif k == 5:
        v = 1 - 10 ** -rng.uniform(1, 5, L + 1)
        v[-1] = 1e-3
    elif k == 0:
        v = rng.uniform(.02, .98, L + 1)
    elif k == 1:
        v = rng.choice([.2, .5, .8], L + 1)
    elif k == 2:
        v = np.sort(rng.uniform(.3, .95, L + 1))       # increasing
        v[-1] = .05
    else:
        v = np.append(np.sort(rng.uniform(.3, .95, L))[::-1], .1)
    if rng.random() < .5:
        v[-1] = min(v.min(), .3)
    if obs is not None:
        obs.count('unsorted', bool((np.diff(v[:-1]) > 0).any()))
        obs.count('ties_in_dispersion', len(set(v[:-1])) < L)
    return v.astype(float)


def make(rng, rows=None, obs=None, size=None):
    w = World()
    L = int(rng.choice([1, 2, 3, 3, 4, 5]))
    N, D = int(rng.integers(1, 9)), int(rng.integers(1, 7))
    ax = int(rng.integers(2))
    if size == 'deep':
        L = int(rng.choice([131, 200, 260]))
        N, D = (100, 3) if ax == 0 else (3, 100)
    elif size == 'wide':
        L = int(rng.choice([1, 2, 3]))
        N, D = (5, 400) if ax == 0 else (400, 5)
    if rows:
        N, D = (rows, D) if ax == 0 else (D, rows)
    dens = rng.choice([.4, .6, .8])
    w.mats['X'] = util.data(rng, (N, D), rng.choice([.3, .5, .7]), rng.choice([0, 0, .3]))
    f = w.add_layer('X', [util.pm(rng, (N, L), dens), util.pm(rng, (D, L), dens)], 'MAX-AND', lbdas(rng, L, obs))
    w.fixed = {'X', f[1 - ax]}
    w.mask[f[ax]], where = one_per_row(rng, w.mats[f[ax]].shape)
    Z, U = w.mats[f[0]] == 1, w.mats[f[1]] == 1
    if obs is not None:
        obs.count('overlapping', bool(((Z.astype(int) @ U.T.astype(int)) > 1).any()))
    return w, f[ax], where


def probe(obs, mon, w, t, where, label):
    before = w.mats[t].copy()
    w.push()
    with Api('Machine.infer (MAX-AND)'):
        util.sweeps(w.machine, 1)
    after = np.asarray(w.obj[t].val)
    mon.judge(w, t, before, after, where, margin=1e-4)
    pinned = w.mask[t] == 1
    obs.ok(np.array_equal(after[pinned], before[pinned]), 'fixed', label + ': pinned entries changed')


def run(case, obs):
    rng = util.rng_of('c07', case)
    kind = case['kind']
    if kind == 'flip':
        mon = FlipMonitor(obs, 'MAX-AND')
        for i in range(16):
            w, t, where = make(rng, obs=obs)
            with Api('building MAX-AND'):
                w.realise()
            if rng.random() < .5:
                w.fix_lbdas()
            for rep in range(3):
                probe(obs, mon, w, t, where, 'MAX-AND')
                obs.saw('flip', core.digest(*w.mats.values()), core.digest(w.layers[0]['lbda']))
                w.mats[t] = util.pm(rng, w.mats[t].shape, .6)
                L = w.mats[t].shape[1]
                w.layers[0]['lbda'] = lbdas(rng, L, obs)
                w.mask[t], where = one_per_row(rng, w.mats[t].shape)
        for size in ('deep', 'wide'):
            w, t, where = make(rng, obs=obs, size=size)
            if size == 'deep':      # few active dimensions, so that entries of any rank matter
                for n in w.layers[0]['factors']:
                    w.mats[n] = util.pm(rng, w.mats[n].shape, .02 if n == t else .5)
            w.realise()
            w.fix_lbdas()
            probe(obs, mon, w, t, where, 'MAX-AND ' + size)
            obs.count(size, sum(w.log_odds(t, r, c)[0] != 0 for r, c in where))
        for i in range(48):     # several free entries per row: each update sees the outcome of those before
            w, t, where = make(rng)
            L = w.mats[t].shape[1]
            if L < 2:
                continue
            v = 1 - 10 ** -rng.uniform(12, 15, L + 1)
            v[-1] = 1e-13
            w.layers[0]['lbda'] = v
            w.mask[t] = several_per_row(rng, w.mats[t].shape)
            w.realise()
            w.fix_lbdas()
            with Api('Machine.infer (MAX-AND)'):
                util.sweeps(w.machine, 1)
            judge_rows(obs, w, t, w.mats[t].copy(), np.asarray(w.obj[t].val), 'MAX-AND', margin=1e-2)
        cancelling(obs, rng)
        obs.sample = {'kind': kind, 'X': list(w.mats['X'].shape), 'lbda': np.round(w.layers[0]['lbda'], 3).tolist(),
                      'log_odds': [round(w.log_odds(t, r, c)[0], 4) for r, c in where[:3]]}
    elif kind == 'chain':
        # dispersions are updated between the sweeps; every sweep has to use the ones in force
        mon = FlipMonitor(obs, 'MAX-AND chain')
        for i in range(8):
            w, t, where = make(rng, obs=obs)
            w.realise()
            before = w.mats[t].copy()
            start = w.layers[0]['lbda'].copy()
            S = 6
            with Api('Machine.infer (MAX-AND)'):
                util.sweeps(w.machine, S)
            tr = np.asarray(w.obj[t].trace)
            lt = np.asarray(w.lobj[0].lbda.trace)
            obs.ok(tr.shape == (S,) + before.shape and lt.shape == (S, len(start)), 'trace', 'MAX-AND: trace shapes %s, %s' % (tr.shape, lt.shape))
            v = w.copy()
            for s in range(S):
                v.mats[t] = before
                v.layers[0]['lbda'] = start if s == 0 else lt[s - 1]
                mon.judge(v, t, before, tr[s], where, margin=1e-4)
                before = tr[s].copy()
                obs.count('sweeps_with_moving_dispersion')
                check_disp(obs, lt[s], v.mats['X'], [tr[s] if n == t else v.mats[n] for n in v.layers[0]['factors']], 'sweep %d' % s, 1e-6)
            obs.saw('chain', core.digest(tr, lt))
        obs.sample = {'kind': kind, 'dispersions': np.round(lt, 3).tolist()}
    elif kind == 'disp':
        for i in range(16):
            w, t, where = make(rng, obs=obs)
            if i == 0:                  # more cells than an int16 counts
                w = World()
                N, D, L = int(rng.integers(190, 260)), int(rng.integers(240, 300)), int(rng.integers(1, 4))
                w.mats['X'] = util.data(rng, (N, D), rng.choice([.3, .7, .95]), rng.choice([0, .1]))
                t = w.add_layer('X', [util.pm(rng, (n, L), rng.choice([.5, .9, 1.])) for n in (N, D)], 'MAX-AND', lbdas(rng, L, obs))[0]
            elif i == 1:                # many latent dimensions
                w, t, where = make(rng, obs=obs)
                X = w.mats['X']
                w = World()
                L = int(rng.choice([129, 140]))
                w.mats['X'] = X
                t = w.add_layer('X', [util.pm(rng, (n, L), rng.choice([.05, .3])) for n in X.shape], 'MAX-AND', lbdas(rng, L, obs))[0]
                obs.count('deep_dispersions')
            if i in (0, 2, 3):            # many cells with hardly any errors, or with all rates about equal
                if i > 0:
                    w = World()
                    N, D, L = int(rng.integers(30, 90)), int(rng.integers(20, 60)), int(rng.integers(1, 5))
                    w.mats['X'] = util.data(rng, (N, D), .5, rng.choice([0, .1]))
                    t = w.add_layer('X', [util.pm(rng, (n, L), rng.choice([.3, .5, .8])) for n in (N, D)], 'MAX-AND', lbdas(rng, L, obs))[0]
                if i == 0 and case['seed'][-1] % 2:      # many cells on, hardly any covered
                    for n in w.layers[0]['factors']:
                        w.mats[n] = util.pm(rng, w.mats[n].shape, .15)
                    w.mats['X'] = util.data(rng, w.mats['X'].shape, .97, rng.choice([0, .02]))
                    obs.count('large_uncovered', int((w.mats['X'] == 1).sum()) > 40000)
                elif i != 2:
                    Y = ref.product([w.mats[n] for n in w.layers[0]['factors']], 'OR-AND')
                    w.mats['X'] = np.where(w.mats['X'] == 0, 0, Y * (1 - 2 * (rng.random(Y.shape) < rng.choice([0, .002])))).astype(np.int8)
                obs.count('large_structured')
            elif rng.random() < .5:       # structured data, so that rates differ
                fs = [w.mats[n] for n in w.layers[0]['factors']]
                p = ref.max_and(fs[0], fs[1], lbdas(rng, fs[0].shape[1]))
                X = np.where(rng.random(p.shape) < p, 1, -1)
                w.mats['X'] = np.where(w.mats['X'] == 0, 0, X).astype(np.int8)
            if rng.random() < .2 and w.mats[t].shape[1] > 1:   # duplicated dimensions: ties
                for n in w.layers[0]['factors']:
                    w.mats[n][:, 1] = w.mats[n][:, 0]
            w.fixed = set(w.mats)
            w.realise()
            with Api('Machine.infer (MAX-AND, factors fixed)'):
                util.sweeps(w.machine, 1 + int(rng.integers(2)))
            fs = [w.mats[n] for n in w.layers[0]['factors']]
            check_disp(obs, w.lobj[0].lbda(), w.mats['X'], fs, 'fixed factors')
            obs.count('large_data', w.mats['X'].size > 32767)
            for n in w.layers[0]['factors'] + ['X']:
                obs.ok(np.array_equal(w.obj[n].val, w.mats[n]), 'purity', 'dispersion update changed ' + n)
            obs.saw('disp', core.digest(*w.mats.values()))
        obs.sample = {'kind': kind, 'dispersion': np.round(np.asarray(w.lobj[0].lbda()), 4).tolist()}
    elif kind == 'out':
        for i in range(10):
            w, t, where = make(rng, obs=obs)
            w.mask = {}
            w.fixed = {'X'}
            if rng.random() < .3:
                w.fixed.add(t)
            w.realise()
            if rng.random() < .3:
                w.fix_lbdas()
            outputs(obs, w, 'before inference')
            with Api('Machine.infer (MAX-AND)'):
                util.sweeps(w.machine, 1 + int(rng.integers(5)))
            outputs(obs, w, 'after inference')
            if rng.random() < .5:
                w.lobj[0].lbda.val = lbdas(rng, len(w.layers[0]['lbda']) - 1)
                outputs(obs, w, 'user-set dispersions')
            obs.saw('out', core.digest(*[np.asarray(o.val) for o in w.obj.values()]))
        obs.sample = {'kind': kind, 'shape': list(w.mats['X'].shape), 'lbda': np.round(np.asarray(w.lobj[0].lbda()), 3).tolist()}
    else:
        w, t, where = make(rng, rows=30, obs=obs)
        w.realise()

        def collect(mon, k):
            for _ in range(60 * k):
                w.mats[t] = util.pm(rng, w.mats[t].shape, .6)
                w.layers[0]['lbda'] = np.append(rng.uniform(.3, .7, w.mats[t].shape[1]), .3)
                w.mask[t], wh = one_per_row(rng, w.mats[t].shape)
                probe(obs, mon, w, t, wh, 'MAX-AND (frequency)')
        calibrated(obs, 'MAX-AND', collect)
        w.layers[0]['lbda'] = np.append(rng.uniform(.05, .12, w.mats[t].shape[1]) + .5, .5)
        best = (0, None)
        for i in range(30):
            w.mats[t] = util.pm(rng, w.mats[t].shape, .6)
            w.mask[t], wh = one_per_row(rng, w.mats[t].shape)
            n = sum(-2 < -w.mats[t][r, c] * w.log_odds(t, r, c)[0] < -.2 for r, c in wh)
            if n > best[0]:
                best = (n, (w.mats[t], w.mask[t], wh))
        if best[1]:
            w.mats[t], w.mask[t], wh = best[1]

            def update():
                w.push()
                with Api('Machine.infer (MAX-AND)'):
                    util.sweeps(w.machine, 1)
                return np.asarray(w.obj[t].val)
            together(obs, w, t, wh, update, 'MAX-AND')


def cancelling(obs, rng):
    """thousands of opposing observations whose contributions nearly cancel"""
    R, D, L = 24, 5000, int(rng.choice([1, 1, 2]))
    ax = int(rng.integers(2))
    w = World()
    lb = np.append(np.sort(rng.uniform(.3, .97, L))[::-1], rng.uniform(.02, .25))
    if L == 2 and rng.random() < .5:
        lb[:2] = lb[1::-1]
    up, down = np.log(lb[0] / lb[-1]), np.log((1 - lb[0]) / (1 - lb[-1]))
    X = np.zeros((R, D), dtype=np.int8)
    for r in range(R):
        ns = rng.permutation(np.arange(1000, 2450))[:400]
        n0 = ns if abs(down) < up else (ns * up / abs(down)).astype(int)
        n1 = np.round(n0 * abs(down) / up).astype(int)
        k = np.argmin(np.abs(np.abs(n1 * up + n0 * down) - rng.uniform(.01, .2)))
        n0, n1 = int(n0[k]), int(n1[k])
        X[r, rng.permutation(D)[:n0 + n1]] = rng.permutation([-1] * n0 + [1] * n1)
    w.mats['X'] = X if ax == 0 else np.ascontiguousarray(X.T)
    fs = [util.pm(rng, (R, L)), np.ones((D, L), dtype=np.int8)]
    fs[0][:, 1:] = -1
    fs[1][:, 1:] = util.pm(rng, (D, L - 1))
    f = w.add_layer('X', fs if ax == 0 else fs[::-1], 'MAX-AND', lb)
    t = f[ax]
    w.fixed = {'X', f[1 - ax]}
    w.mask[t] = np.ones((R, L), dtype=np.int8)
    w.mask[t][:, 0] = 0
    w.realise()
    w.fix_lbdas()
    before = w.mats[t].copy()
    with Api('Machine.infer (MAX-AND, wide)'):
        util.sweeps(w.machine, 1)
    after = np.asarray(w.obj[t].val)
    for r in range(R):
        odds = float((X[r] == 1).sum() * up + (X[r] == -1).sum() * down)      # of on against off
        if odds * before[r, 0] < -5e-3:
            obs.count('nearly_cancelling', abs(odds) < 1)
            obs.ok(after[r, 0] != before[r, 0], 'must_flip', lambda: 'MAX-AND, %d columns, dispersions %s: entry of row %d stayed %d although its log-odds of being on are %g' % (
                D, lb, r, before[r, 0], odds))


def check_disp(obs, got, X, fs, what, tol=1e-9):
    got = np.asarray(got, dtype=float)
    obs.ok(got.shape == (fs[0].shape[1] + 1,), 'shape', 'MAX-AND dispersion (%s): shape %s' % (what, got.shape))
    good, exp = ref.max_and_dispersions(X, fs[0], fs[1], got, tol)
    obs.count('dispersion_updates', good is not None)
    obs.count('undecided_ties', good is None)
    obs.ok(good is not False, 'dispersion',
           lambda: 'MAX-AND dispersion (%s): %s, expected (up to ties) %s' % (what, np.round(got, 6).tolist()[-12:], np.round(exp, 6).tolist()[-12:]))
    obs.ok(bool(got[-1] <= got.min() + 1e-12), 'clamped', lambda: 'last dispersion %r exceeds another: %s' % (got[-1], got.tolist()))


def outputs(obs, w, when):
    lr = w.lobj[0]
    lb = np.asarray(lr.lbda(), dtype=float)
    tr = lambda o: np.asarray(o.trace) if hasattr(o, 'trace') else None
    mean = lambda o: tr(o).mean(axis=0) if tr(o) is not None else np.asarray(o(), dtype=float)
    st = [np.asarray(f()) for f in lr.factors]
    before = core.digest(*(st + [lb]))
    mp = [2 * (mean(f) > 0).astype(int) - 1 for f in lr.factors]
    S = max([len(tr(o)) for o in lr.factors + [lr.lbda] if tr(o) is not None], default=1)
    mc = np.mean([ref.max_and(*([(tr(f)[t] if tr(f) is not None else f()) for f in lr.factors] +
                                [tr(lr.lbda)[t] if tr(lr.lbda) is not None else lb])) for t in range(S)], axis=0)
    exp = {'point_estimate': [ref.max_and(st[0], st[1], lb)],
           'factor_map': [ref.max_and(mp[0], mp[1], lb), ref.max_and(mp[0], mp[1], mean(lr.lbda))],
           'mc': [mc],
           'factor_mean': [ref.max_and_mean((mean(lr.factors[0]) + 1) / 2, (mean(lr.factors[1]) + 1) / 2, mean(lr.lbda))]}
    for tech, es in exp.items():
        with Api('output(%s)' % tech):
            o = lr.output(technique=tech)
        o = np.asarray(o)
        obs.count('outputs')
        obs.ok(o.shape == es[0].shape, 'shape', 'MAX-AND output %s: shape %s' % (tech, o.shape))
        obs.ok(bool(np.all((o >= -1e-12) & (o <= 1 + 1e-9))), 'range', 'MAX-AND output %s outside [0,1] (%s)' % (tech, when))
        obs.ok(any(np.allclose(o, e, rtol=0, atol=1e-6) for e in es), 'output:' + tech,
               lambda: 'MAX-AND output %s (%s): %s; lbda %s' % (tech, when, util.diff_at(o, es[0]), np.round(lb, 3).tolist()))
    obs.ok(core.digest(*([np.asarray(f()) for f in lr.factors] + [np.asarray(lr.lbda(), dtype=float)])) == before, 'purity', 'output changed the state')
