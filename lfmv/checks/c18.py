import math
import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.world import World, FlipMonitor, calibrated, one_per_row, several_per_row, judge_rows, together, both_ways

PROPERTY = 'C18'
RULE = ('cases: (a) single-entry updates of either factor judged against the explicit threshold likelihood (certain / '
        'impossible flips, frequencies; thresholds and dispersion pinned); (b) threshold draws per column against the '
        'exact conditional over 1..5 (chi-square in two stages, plus columns where one threshold has all the mass); '
        '(c) dispersion and output of all states recorded. Distinct non-trivial = distinct (kind, data, factors, q).')
REQUIRED = {'pairs_of_entries': 150, 'threshold_pairs': 25, 'threshold_successions': 30, 'must_flip_informative': 800, 'must_stay': 80, 'chance_flips': 800, 'threshold_columns': 60,
            'forced_thresholds': 60, 'dispersions': 150, 'outputs': 60, 'calibrations': 2, 'wide': 10, 'deep': 10, 'large_thresholds': 10, 'high_thresholds': 4, 'large_state': 4, 'large_correct': 3, 'misleading_rows': 4, 'changed_settings': 60, 'rows_one_by_one': 200, 'rows_depending_on_earlier_updates': 15}


def cases(tier, seed):
    out = []
    for r in range(8 if tier == 'quick' else 80):
        for k in ('flip', 'freq', 'q', 'qsharp', 'state'):
            out.append({'kind': k, 'seed': [seed, r]})
    return out


def make(rng, rows=None, size=None):
    w = World()
    L = int(rng.choice([1, 2, 3, 4, 6, 7]))
    N, D = int(rng.integers(1, 9)), int(rng.integers(1, 7))
    ax = int(rng.integers(2))
    if size:
        L = 2 if size == 'wide' else int(rng.choice([130, 260]))
        N, D = (6, 4 if size == 'deep' else 400)[::1 if ax == 0 else -1]
    if rows:
        N, D = (rows, D) if ax == 0 else (D, rows)
    dens = rng.choice([.5, .7, .85])
    q = rng.integers(1, 6, size=D)
    w.mats['X'] = util.data(rng, (N, D), rng.choice([.3, .5, .7]), rng.choice([0, 0, .3]))
    f = w.add_layer('X', [util.pm(rng, (N, L), dens), util.pm(rng, (D, L), dens)], 'qL-AND', 1., q=q)
    w.fixed = {'X', f[1 - ax]}
    w.mask[f[ax]], where = one_per_row(rng, w.mats[f[ax]].shape)
    return w, f[ax], where


def probe(obs, mon, w, t, where, label):
    before = w.mats[t].copy()
    w.push()
    w.lobj[0].q.fixed = True
    with Api('Machine.infer (qL-AND)'):
        util.sweeps(w.machine, 1)
    after = np.asarray(w.obj[t].val)
    mon.judge(w, t, before, after, where)
    pinned = w.mask[t] == 1
    obs.ok(np.array_equal(after[pinned], before[pinned]), 'fixed', label + ': pinned entries changed')
    obs.ok(np.array_equal(np.asarray(w.lobj[0].q()).ravel(), w.layers[0]['q']), 'fixed_q', 'fixed thresholds changed')


def conditional(X, Z, U, lbda, gamma):
    """exact conditional of each column's threshold over 1..5"""
    cnt = (Z == 1).astype(int) @ (U == 1).astype(int).T
    out = np.zeros((5, X.shape[1]))
    for q in range(1, 6):
        Y = np.where(cnt >= q, 1, -1)
        for d in range(X.shape[1]):
            out[q - 1, d] = ref.loglik(X[:, d], Y[:, d], lbda) + q * math.log(gamma) - gamma - math.lgamma(q + 1)
    out = np.exp(out - out.max(axis=0))
    return out / out.sum(axis=0)


def run(case, obs):
    rng = util.rng_of('c18', case)
    kind = case['kind']
    if kind == 'flip':
        mon = FlipMonitor(obs, 'qL-AND')
        for i in range(14):
            w, t, where = make(rng)
            with Api('building qL-AND'):
                w.realise()
            if rng.random() < .5:
                w.fix_lbdas()
            for rep in range(5):
                w.layers[0]['lbda'] = float(rng.choice([0., .5, 2., 40., 40.]))
                probe(obs, mon, w, t, where, 'qL-AND')
                obs.saw('flip', core.digest(*w.mats.values()), w.layers[0]['q'].tolist(), w.layers[0]['lbda'])
                w.mats[t] = util.pm(rng, w.mats[t].shape, .7)
                w.layers[0]['q'] = rng.integers(1, int(rng.choice([3, 6])), size=len(w.layers[0]['q']))
                w.mask[t], where = one_per_row(rng, w.mats[t].shape)
        for i in range(40):     # several free entries per row: each update sees the outcome of those before
            w, t, where = make(rng)
            if w.mats[t].shape[1] < 2:
                continue
            w.mask[t] = several_per_row(rng, w.mats[t].shape)
            w.layers[0]['lbda'] = 40.
            w.layers[0]['q'] = rng.integers(1, 4, size=len(w.layers[0]['q']))
            w.realise()
            w.fix_lbdas()
            w.push()
            with Api('Machine.infer (qL-AND)'):
                util.sweeps(w.machine, 1)
            judge_rows(obs, w, t, w.mats[t].copy(), np.asarray(w.obj[t].val), 'qL-AND')
        for size in ('wide', 'deep'):
            w, t, where = make(rng, size=size)
            if size == 'wide':
                w.mats[w.layers[0]['factors'][w.layers[0]['factors'][0] == t]][:] = 1
                w.layers[0]['q'][:] = rng.integers(1, 3)
                w.mats['X'][:] = (w.mats['X'] != 0) * rng.choice([-1, 1])
            else:
                w.mats[t] = util.pm(rng, w.mats[t].shape, .02)
            w.realise()
            w.fix_lbdas()
            for rep in range(2):
                w.layers[0]['lbda'] = float(rng.choice([.5, 2., 40.]))
                probe(obs, mon, w, t, where, 'qL-AND ' + size)
                obs.count(size, sum(abs(w.log_odds(t, r, c)[0]) > (129 if size == 'wide' else 0) * w.layers[0]['lbda'] for r, c in where))
                w.mats[t] = util.pm(rng, w.mats[t].shape, .5 if size == 'wide' else .02)
        obs.sample = {'kind': kind, 'X': list(w.mats['X'].shape), 'q': w.layers[0]['q'].tolist(),
                      'log_odds': [round(w.log_odds(t, r, c)[0], 4) for r, c in where[:3]]}
    elif kind == 'freq':
        while True:
            w, t, where = make(rng, rows=40)
            if 1 < w.mats[t].shape[1] < 6 and min(w.mats['X'].shape) > 1:
                break
        w.realise()

        def collect(mon, k):
            for i in range(20 * k):
                w.mats[t] = util.pm(rng, w.mats[t].shape, .6)
                w.layers[0]['lbda'] = [.3, .6, 1., .05][i % 4]
                w.layers[0]['q'] = rng.integers(1, 3, size=len(w.layers[0]['q']))
                w.mask[t], wh = one_per_row(rng, w.mats[t].shape)
                probe(obs, mon, w, t, wh, 'qL-AND (frequency)')
        calibrated(obs, 'qL-AND', collect)
        best = (0, None)
        for i in range(60):
            w.mats[t] = util.pm(rng, w.mats[t].shape, .6)
            w.layers[0]['lbda'] = [.3, .6, 1.][i % 3]
            w.layers[0]['q'] = rng.integers(1, 3, size=len(w.layers[0]['q']))
            w.mask[t], wh = one_per_row(rng, w.mats[t].shape)
            n = sum(-2 < -w.mats[t][r, c] * w.log_odds(t, r, c)[0] < -.2 for r, c in wh)
            if n > best[0]:
                best = (n, (w.mats[t], w.mask[t], wh, w.layers[0]['lbda'], w.layers[0]['q']))
        if best[1]:
            w.mats[t], w.mask[t], wh, w.layers[0]['lbda'], w.layers[0]['q'] = best[1]

            def update():
                w.push()
                w.lobj[0].q.fixed = True
                with Api('Machine.infer (qL-AND)'):
                    util.sweeps(w.machine, 1)
                return np.asarray(w.obj[t].val)
            together(obs, w, t, wh, update, 'qL-AND')
    elif kind in ('q', 'qsharp'):
        for i in range(4 if kind == 'q' else 12):
            w, t, where = make(rng)
            if kind == 'qsharp' and i < 3:      # many columns, many rows, many latent dimensions
                N, D, L = [(3, 300, 3), (300, 3, 3), (4, 4, 150)][i]
                w = World()
                w.mats['X'] = util.data(rng, (N, D), .5, rng.choice([0, .2]))
                fs = [util.pm(rng, (n, L), .8 if i < 2 else .15) for n in (N, D)]
                w.add_layer('X', fs, 'qL-AND', 1., q=rng.integers(1, 6, size=D))
                cnt = (fs[0] == 1).astype(int) @ (fs[1] == 1).astype(int).T
                Y = np.where(cnt >= rng.integers(1, 6, size=D), 1, -1)      # data that follow some thresholds
                w.mats['X'] = np.where((w.mats['X'] != 0) & (rng.random((N, D)) < .98), Y, w.mats['X']).astype(np.int8)
                obs.count('large_thresholds')
                if i == 1:      # the first rows follow another threshold than the later ones
                    other = np.where(cnt >= 1 + (np.argmax([(np.where(cnt >= k, 1, -1) == Y).mean(axis=0) for k in range(1, 6)], axis=0) + 1) % 3, 1, -1)
                    w.mats['X'][:135] = (w.mats['X'][:135] != 0) * other[:135]
                    obs.count('misleading_rows')
            for phase in range(2 if kind == 'qsharp' or i == 0 else 1):
                lbda = float(rng.choice([.1, .3, .8])) if kind == 'q' else float(rng.choice([30., 60., 0.]))
                gamma = float(rng.choice([1, 1, .5, 2, 4])) if lbda else float(rng.choice([1e-14, 1e14]))
                w.layers[0]['lbda'] = lbda
                w.fixed = set(w.mats)
                if not phase:
                    w.realise()
                    lr = w.lobj[0]
                    lr.q.fixed = w.q_fixed      # as the layer was built: thresholds are sampled
                    w.fix_lbdas()
                else:       # the same machine under other settings
                    w.mats['X'] = np.where(rng.random(w.mats['X'].shape) < .2, -w.mats['X'], w.mats['X']).astype(np.int8)
                    n = w.layers[0]['factors'][int(rng.integers(2))]
                    w.mats[n] = util.pm(rng, w.mats[n].shape, .8)
                    w.layers[0]['q'] = np.asarray(lr.q()).ravel().copy()
                    w.push()
                    lr.q.fixed = False
                    obs.count('changed_settings')
                lr.gamma = gamma
                fs = [w.mats[n] for n in w.layers[0]['factors']]
                cond = conditional(w.mats['X'], fs[0], fs[1], lbda, gamma)

                def sample(S):
                    with Api('Machine.infer (qL-AND thresholds)'):
                        util.sweeps(w.machine, S)
                    tr = getattr(lr.q, 'trace', None)
                    obs.ok(tr is not None and np.size(tr) == S * cond.shape[1], 'trace', lambda: 'no %d sampled thresholds for %d columns: %s' % (S, cond.shape[1], np.shape(tr)))
                    tr = np.asarray(tr).reshape(S, -1)
                    obs.ok(tr.shape[1] == cond.shape[1], 'shape', 'threshold trace has shape %s' % (lr.q.trace.shape,))
                    obs.ok(bool(((tr >= 1) & (tr <= 5)).all()), 'support', lambda: 'threshold outside 1..5: %s' % np.unique(tr))
                    return tr
                S = 500 if kind == 'q' else 4
                tr = sample(S)
                tr2 = None
                for d in range(cond.shape[1]):
                    desc = lambda: 'column %d (lbda=%g, gamma=%g): conditional %s' % (d, lbda, gamma, np.round(cond[:, d], 5).tolist())
                    for v in range(5):
                        if cond[v, d] > 1 - 1e-10:
                            obs.ok(bool((tr[:, d] == v + 1).all()), 'threshold', lambda: desc() + '; drawn %s' % np.unique(tr[:, d]))
                            obs.count('forced_thresholds')
                        if cond[v, d] < 1e-12:
                            obs.ok(not (tr[:, d] == v + 1).any(), 'threshold', lambda: desc() + '; drawn %d' % (v + 1))
                    if kind == 'q':
                        c = np.bincount(tr[:, d], minlength=6)[1:6]
                        p, nb = ref.chisq_p(c, S * cond[:, d])
                        obs.evals += S
                        obs.count('threshold_columns', nb > 1)
                        if p < 1e-4:
                            if tr2 is None:
                                tr2 = sample(4 * S)
                            p2, _ = ref.chisq_p(np.bincount(tr2[:, d], minlength=6)[1:6], 4 * S * cond[:, d])
                            obs.ok(p2 > 1e-7, 'threshold_frequency', lambda: desc() + '; frequencies %s' % (np.bincount(tr2[:, d], minlength=6)[1:6] / (4. * S)).tolist())
                if kind == 'q':
                    free = [d for d in range(cond.shape[1]) if cond[:, d].max() < .9][:20]
                    for a in range(len(free)):
                        for b in range(a):
                            k, p = int((tr[:, free[a]] == tr[:, free[b]]).sum()), float((cond[:, free[a]] * cond[:, free[b]]).sum())
                            obs.ok(both_ways(k, S, p) > 1e-9, 'independence', lambda: 'thresholds of columns %d and %d agree in %d of %d samples, expected %.1f' % (free[b], free[a], k, S, p * S))
                            obs.count('threshold_pairs')
                        k, p = int((tr[0::2, free[a]] == tr[1::2, free[a]]).sum()), float((cond[:, free[a]] ** 2).sum())
                        obs.ok(both_ways(k, S // 2, p) > 1e-9, 'independence', lambda: 'threshold of column %d is the same in %d of %d pairs of successive samples, expected %.1f' % (free[a], k, S // 2, p * S / 2))
                        obs.count('threshold_successions')
                obs.ok(all(np.array_equal(w.obj[n].val, w.mats[n]) for n in w.mats), 'purity', 'threshold update changed a fixed matrix')
                obs.saw(kind, core.digest(*w.mats.values()), lbda, gamma)
        obs.sample = {'kind': kind, 'lbda': lbda, 'gamma': gamma, 'conditional_of_first_column': np.round(cond[:, 0], 4).tolist()}
    else:
        for i in range(8):
            w, t, where = make(rng)
            w.mask, w.fixed = {}, {'X'}
            if i == 0:      # more cells than an int16 counts
                w = World()
                w.mats['X'] = util.data(rng, (190, 181), rng.choice([.1, .5]), rng.choice([0, .02]))
                w.add_layer('X', [util.pm(rng, (n, 2), .7) for n in (190, 181)], 'qL-AND', 1., q=rng.integers(1, 3, size=181))
                if case['seed'][-1] % 2:
                    Y = ref.ql_product(*[w.mats[n] for n in w.layers[0]['factors']] + [w.layers[0]['q']])
                    w.mats['X'] = np.where((w.mats['X'] != 0) & (rng.random(Y.shape) < .98), Y, w.mats['X']).astype(np.int8)
                    obs.count('large_correct', int((w.mats['X'] == Y).sum()) > 32767)
                w.fixed = set(w.mats)
                obs.count('large_state')
            if i in (1, 2):     # high thresholds, counts around them
                w = World()
                N, D, L = int(rng.integers(5, 12)), int(rng.integers(3, 8)), int(rng.integers(6, 10))
                w.mats['X'] = util.data(rng, (N, D), .5, rng.choice([0, .2]))
                w.add_layer('X', [util.pm(rng, (n, L), .8) for n in (N, D)], 'qL-AND', 1., q=np.append(rng.integers(4, 6, size=D - 1), 5))
                w.fixed = set(w.mats) if i == 1 else {'X'}
                obs.count('high_thresholds')
            w.realise()
            lr = w.lobj[0]
            lr.q.fixed = i in (0, 1, 2) or rng.random() < .3
            prior = [(1, 1), (.5, 2.), (4, 1)][int(rng.integers(3))]
            S = 3
            if i and rng.random() < .5:     # an earlier inference under another prior and other data
                lr.lbda.beta_prior = (2., 7.)
                keep = w.mats['X']
                w.obj['X'].val = util.data(rng, keep.shape, .5, .5)
                with Api('Machine.infer (qL-AND)'):
                    util.sweeps(w.machine, 1)
                w.obj['X'].val = keep.copy()
                obs.count('changed_settings')
            lr.lbda.beta_prior = prior
            with Api('Machine.infer (qL-AND)'):
                util.sweeps(w.machine, S)
            X = w.mats['X']
            for s in range(S):
                q = np.asarray(lr.q.trace)[s] if not lr.q.fixed else np.asarray(lr.q())
                Y = ref.ql_product(*([f() if f.fixed else f.trace[s] for f in lr.factors] + [q]))
                e = ref.dispersion(X, Y, prior)
                obs.ok(abs(float(lr.lbda.trace[s]) - e) < 1e-5 * (1 + e), 'dispersion', 'qL-AND dispersion of sample %d: %g, expected %g' % (s, lr.lbda.trace[s], e))
                obs.count('dispersions')
            Y = ref.ql_product(lr.factors[0](), lr.factors[1](), lr.q())
            obs.ok(abs(float(lr.lbda()) - ref.dispersion(X, Y, prior)) < 1e-7 * (1 + ref.dispersion(X, Y, prior)), 'dispersion', 'qL-AND dispersion')
            with Api('output (qL-AND)'):
                o = np.asarray(lr.output(technique='point_estimate'))
            obs.ok(util.same(o, (Y + 1) / 2.), 'output', lambda: 'qL-AND output: ' + util.diff_at(o, (Y + 1) / 2.))
            obs.count('outputs')
            obs.saw('state', core.digest(*[f() for f in lr.factors]), np.asarray(lr.q()).tolist())
