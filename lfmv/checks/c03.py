import itertools
import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.world import World, FlipMonitor, calibrated, one_per_row, several_per_row, judge_rows, together

PROPERTY = 'C03'
RULE = ('one case = model x data axes x factor under test. In every probe one entry per row of that factor is free '
        '(everything else pinned), one sweep of Machine.infer is run and each free entry is judged against the exact '
        'conditional log-odds computed from the likelihood (certain flips, impossible flips, flip frequencies). '
        'Probes vary dimensions, density, missing data, prior (also 0 and 1), dispersion (0 to 60), and half of them '
        'are repeated inferences of one machine with changed prior/dispersion/state/data. Every column of machines with '
        '2 to 10 latent dimensions is probed in both states where the other columns decide nothing. Distinct non-trivial = '
        'distinct (model, axis, state, data) with at least one entry whose data term is non-zero.')
REQUIRED = {'must_flip_informative': 2000, 'must_stay': 1500, 'chance_flips': 3000, 'ties': 100, 'calibrations': 20,
            'reinference_probes': 100, 'threshold_probes': 100,
            'score_above_127': 12, 'score_above_32767': 10, 'deep_probes': 12, 'wide_several': 300, 'rare_flips': 80, 'tall_rows': 5000,
            'column_entries': 4000, 'pairs_of_entries': 1500, 'successive_updates': 300, 'rows_one_by_one': 4000, 'rows_depending_on_earlier_updates': 300}


def cases(tier, seed):
    out = []
    for r in range(1 if tier == 'quick' else 12):
        for m in ref.EIGHT:
            for K in (2, 3):
                for a in range(K):
                    out.append({'model': m, 'K': K, 'axis': a, 'seed': [seed, r]})
    return out


def make(rng, model, K, axis, rows=None):
    L = int(rng.choice([1, 2, 2, 3, 3, 4, 6, 11]))
    ds = list(util.dims(rng, K, 1, 6 if K == 2 else 4))
    ds[axis] = rows or int(rng.integers(3, 16))
    w = World()
    dens = rng.choice([.15, .4, .6, .85])
    w.mats['X'] = util.data(rng, ds, rng.choice([.2, .5, .8]), rng.choice([0, 0, .3, .7]))
    names = w.add_layer('X', [util.pm(rng, (d, L), dens) for d in ds], model, 1.)
    if rng.random() < .5:       # data close to the product: larger scores
        fs = [w.mats[n] for n in names]
        Y = ref.product(fs, model).astype(np.int8)
        keep = rng.random(Y.shape) < .8
        w.mats['X'] = np.where(keep & (w.mats['X'] != 0), Y, w.mats['X']).astype(np.int8)
    w.fixed = {'X'} | {n for i, n in enumerate(names) if i != axis}
    t = names[axis]
    w.mask[t], where = one_per_row(rng, w.mats[t].shape)
    return w, t, where


def few_on(rng, shape):
    """rows with no, one, two or nearly all entries on"""
    v = -np.ones(shape, dtype=np.int8)
    for r in range(shape[0]):
        v[r, rng.permutation(shape[1])[:int(rng.choice([0, 1, 2, shape[1] - 1, shape[1]]))]] = 1
    return v


def large(rng, model, K, axis, size):
    w = World()
    if size == 'tall':      # many rows of the factor
        L = int(rng.choice([1, 2, 3]))
        ds = [2] * K
    elif size in ('wide', 'wide, several dimensions'):
        L = int(rng.choice([1, 1, 2] if size == 'wide' else [3, 4, 6]))
        ds = [int(rng.integers(290, 600))] * 2 if K == 2 else [int(rng.integers(17, 26)) for _ in range(3)]
    else:
        L = int(rng.choice([129, 200, 257]))
        ds = [3] * K
    ds[axis] = 5 if size != 'tall' else int(rng.choice([260, 300, 520]))
    w.mats['X'] = util.data(rng, ds, .5, rng.choice([0, .2]))
    dens = .5 if ',' in size else .9 if model.endswith(('AND', 'NAND')) else .5
    names = w.add_layer('X', [util.pm(rng, (d, L), dens) if size != 'deep' else few_on(rng, (d, L)) for d in ds], model, 1.)
    if size not in ('deep', 'wide, several dimensions'):
        Y = ref.product([w.mats[n] for n in names], model).astype(np.int8)
        w.mats['X'] = np.where((w.mats['X'] != 0) & (rng.random(ds) < .95), Y, w.mats['X']).astype(np.int8)
    w.fixed = {'X'} | {n for i, n in enumerate(names) if i != axis}
    t = names[axis]
    w.mask[t], where = one_per_row(rng, w.mats[t].shape)
    return w, t, where


def column(rng, model, K, axis, L, l, rows=12):
    """all rows free in column l; the other columns of most cells leave the outcome to column l"""
    outer, inner = model.split('-')
    needed = outer not in ('OR', 'NOR')         # value of the other columns that decides nothing
    val = {b: ref.op(inner, np.array(b) == 1) for b in itertools.product((-1, 1), repeat=K)}
    ds = [int(rng.integers(1, 4)) for _ in range(K)]
    ds[axis] = rows
    fs = [util.pm(rng, (d, L), .5) for d in ds]
    for c in range(L):
        if c == l:
            continue
        if outer not in ('XOR', 'NXOR') or rng.random() < .7:
            want = needed if outer not in ('XOR', 'NXOR') else False
            ok = [b for b in val if val[b] == want]
            # one value per other factor, shared by its rows, so that every cell of a row agrees
            b = ok[int(rng.integers(len(ok)))]
            for k in range(K):
                if k != axis:
                    fs[k][:, c] = b[k]
            zs = [q[axis] for q in ok if all(q[k] == b[k] for k in range(K) if k != axis)]
            for r in range(rows):
                if rng.random() > .5 / L:
                    fs[axis][r, c] = zs[int(rng.integers(len(zs)))]
    w = World()
    w.mats['X'] = util.data(rng, ds, .5, rng.choice([0, .2]))
    names = w.add_layer('X', fs, model, 60.)
    t = names[axis]
    w.fixed = {'X'} | {n for n in names if n != t}
    w.mask[t] = np.ones((rows, L), dtype=np.int8)
    w.mask[t][:, l] = 0
    return w, t, [(r, l) for r in range(rows)]


def settings(rng, w, t, where, kind):
    """choose dispersion and prior"""
    ly = w.layers[0]
    if kind == 'threshold':
        # dispersion 60; the prior is a threshold between two possible scores
        ly['lbda'] = 60.
        w.prior[t] = .5
        scores = sorted({int(round(w.log_odds(t, r, c)[0] / 60)) for r, c in where})
        s = int(rng.choice(scores))
        th = s + float(rng.choice([-.5, .5]))
        if th < -.5 or th > 10:
            # mirror the data to bring scores to the representable side
            w.mats['X'] = (-w.mats['X']).astype(np.int8)
            th = -th
            th = min(max(th, -.5), 10.5)
        w.prior[t] = float(ref.expit(-60. * th))
    elif kind == 'certain':
        ly['lbda'], w.prior[t] = 60., .5
    elif kind == 'edge':
        ly['lbda'] = float(rng.choice([0., 1., 5.]))
        w.prior[t] = float(rng.choice([0., 1., .5]))
    else:
        ly['lbda'] = float(rng.choice([0., .2, .7, 1.3, 3.]))
        w.prior[t] = float(rng.choice([.5, .5, .1, .3, .8, .95, 1e-4]))


def one_update(w, t):
    w.push()
    with Api('Machine.infer'):
        util.sweeps(w.machine, 1)
    return np.asarray(w.obj[t].val)


def probe(obs, mon, w, t, where, label):
    before = w.mats[t].copy()
    after = one_update(w, t)
    obs.ok(after.shape == before.shape, 'shape', '%s: factor changed its shape' % label)
    mon.judge(w, t, before, after, where)
    fixed = w.mask[t] == 1
    obs.ok(np.array_equal(after[fixed], before[fixed]), 'fixed', '%s: pinned entries changed' % label)
    return after


def run(case, obs):
    rng = util.rng_of('c03', case)
    model, K, axis = case['model'], case['K'], case['axis']
    label = '%s %dD factor %d' % (model, K, axis)
    mon = FlipMonitor(obs, label)
    kinds = ['threshold', 'plain', 'edge', 'threshold', 'plain', 'threshold', 'plain', 'threshold']
    for kind in kinds:
        w, t, where = make(rng, model, K, axis)
        settings(rng, w, t, where, kind)
        with Api('building a %s machine' % model):
            w.realise()
        if rng.random() < .5:
            w.fix_lbdas()
        probe(obs, mon, w, t, where, label)
        obs.count('threshold_probes', kind == 'threshold')
        informative = any(w.log_odds(t, r, c)[0] != 0 for r, c in where)
        if informative:
            obs.saw(label, core.digest(w.mats['X'], *[w.mats[n] for n in w.layers[0]['factors']]), w.layers[0]['lbda'], w.prior[t])
        # repeated inference of the same machine with changed circumstances
        for rep in range(2):
            w.mats[t] = util.pm(rng, w.mats[t].shape, rng.choice([.2, .5, .8]))
            if rng.random() < .5:
                w.mats['X'] = util.data(rng, w.mats['X'].shape, .5, rng.choice([0, .3]))
            if rng.random() < .5:
                for n in w.layers[0]['factors']:
                    if n != t:
                        w.mats[n] = util.pm(rng, w.mats[n].shape, .5)
            w.mask[t], where = one_per_row(rng, w.mats[t].shape)
            settings(rng, w, t, where, str(rng.choice(['threshold', 'plain', 'edge'])))
            probe(obs, mon, w, t, where, label + ' (repeated inference)')
            obs.count('reinference_probes')
            obs.saw(label, 're', core.digest(w.mats['X'], *[w.mats[n] for n in w.layers[0]['factors']]), w.layers[0]['lbda'], w.prior[t])

    # several free entries per row: each update sees the outcome of those before
    for i in range(12):
        for attempt in range(8):
            w, t, where = make(rng, model, K, axis)
            if w.mats[t].shape[1] in (2, 3, 4):
                break
        settings(rng, w, t, where, 'threshold' if i % 3 == 2 else 'certain')
        w.mask[t] = several_per_row(rng, w.mats[t].shape)
        with Api('building a %s machine' % model):
            w.realise()
        for rep in range(2):
            before = w.mats[t].copy()
            judge_rows(obs, w, t, before, one_update(w, t), label)
            w.mats[t] = util.pm(rng, w.mats[t].shape, .5)

    # every column of machines of several latent sizes, the other columns deciding nothing
    for L in (2, 3, 4, 5, 6, 7, 8, 10):
        for l in range(L):
            w, t, where = column(rng, model, K, axis, L, l)
            settings(rng, w, t, where, str(rng.choice(['threshold', 'plain'])) if l % 2 else 'certain')
            with Api('building a %s machine' % model):
                w.realise()
            probe(obs, mon, w, t, where, label + ' (column %d of %d)' % (l, L))
            w.mats[t][:, l] *= -1           # the opposite states
            probe(obs, mon, w, t, where, label + ' (column %d of %d)' % (l, L))
            obs.count('column_entries', sum(w.log_odds(t, r, c)[0] != 0 for r, c in where))

    # many data cells per entry, many latent dimensions
    for size in ('wide', 'deep', 'tall', 'wide, several dimensions'):
        w, t, where = large(rng, model, K, axis, size)
        w.realise()
        for rep in range(3 if size != 'tall' else 1):
            w.mats[t] = util.pm(rng, w.mats[t].shape, .5) if size != 'deep' else few_on(rng, w.mats[t].shape)
            settings(rng, w, t, where, 'plain')
            w.layers[0]['lbda'] = float(rng.choice([.5, 2., 60.]))
            probe(obs, mon, w, t, where, label + ' (%s)' % size)
            best = max(abs(w.log_odds(t, r, c)[0]) for r, c in where) / w.layers[0]['lbda']
            obs.count('tall_rows', len(where) if size == 'tall' else 0)
            obs.count('score_above_127', size == 'wide' and best > 129)
            obs.count('deep_probes', size == 'deep' and best > 0)
            obs.count('wide_several', sum(w.log_odds(t, r, c)[0] != 0 for r, c in where) if ',' in size else 0)

    # more data cells per entry than 16 bits count, in favour of on or off
    if case['seed'][1] == 0 and axis == K - 1:
        w = World()
        ds = [int(rng.integers(182, 186)), 185] if K == 3 else [int(rng.integers(33000, 34000))]
        ds = ds + [2]
        fs = [np.ones((d, 1), dtype=np.int8) for d in ds]
        if model.endswith('XOR') and K == 3:
            fs[0][:] = -1
        w.mats['X'] = np.where(rng.random(ds) < .001, 0, ref.product(fs, model)).astype(np.int8)
        w.mats['X'][..., 1] *= -1
        names = w.add_layer('X', fs, model, 1e-3)
        t = names[axis]
        w.fixed = {'X'} | {n for n in names if n != t}
        w.mask[t], where = one_per_row(rng, w.mats[t].shape)
        w.prior[t] = .5
        for start in (-1, 1):
            w.mats[t][:] = start
            if start == -1:
                w.realise()
            probe(obs, mon, w, t, where, label + ' (more than 16 bits)')
        obs.count('score_above_32767', max(abs(w.log_odds(t, r, c)[0]) for r, c in where) / w.layers[0]['lbda'] > 32768)

    # rare flips: their number over many rows (two stages)
    if case['seed'][1] == 0 and axis == case['K'] - 1:
        rare(obs, rng, model, K, axis, label)

    # flip frequencies at ordinary dispersions
    w, t, where = make(rng, model, K, axis, rows=60)
    w.realise()

    def collect(mon, k):
        for i in range(20 * k):
            settings(rng, w, t, where, 'plain')
            w.layers[0]['lbda'] = float([.2, .5, 1., .04][i % 4])
            if i % 4 == 3:
                w.prior[t] = .5     # weak evidence
            w.mats[t] = util.pm(rng, w.mats[t].shape, .5)
            w.mask[t], wh = one_per_row(rng, w.mats[t].shape)
            probe(obs, mon, w, t, wh, label + ' (frequency)')

    calibrated(obs, label, collect)
    # updates of different rows, and successive ones, are independent
    for i in range(2):
        w, t, where = make(rng, model, K, axis, rows=14)
        w.layers[0]['lbda'] = .15
        w.prior[t] = .3
        w.mats[t][:] = -1
        w.realise()
        together(obs, w, t, where, lambda: one_update(w, t), label)
    obs.sample = {'model': model, 'axis': axis, 'shape': list(w.mats['X'].shape), 'L': int(w.mats[t].shape[1]),
                  'lbda': w.layers[0]['lbda'], 'prior': w.prior[t],
                  'first_free_entries': [[int(r), int(c), round(w.log_odds(t, r, c)[0], 4)] for r, c in where[:3]]}


def rare(obs, rng, model, K, axis, label):
    """rows of one free entry each whose flip has a probability of about 2e-4"""
    N = 25000
    other = [np.ones((2 if k == 0 else 1, 1), dtype=np.int8) for k in range(K - 1)]
    if model.endswith('XOR') and K == 3:
        other[1][:] = -1
    on = rng.random((N, 1)) < .5
    v = np.where(on, 1, -1).astype(np.int8)
    fs = [o for o in other]
    fs.insert(axis, v)
    X = ref.product(fs, model).astype(np.int8)
    flipped = list(fs)
    flipped[axis] = -v
    Y = ref.product(flipped, model)
    lost = ((X != Y).reshape(-1, N) if axis == K - 1 else np.moveaxis(X != Y, axis, -1).reshape(-1, N)).sum(0)
    x = 8.5
    with Api('building a machine with %d rows' % N):
        m, d, lr = util.build(X, 1, model, fs)
    for k, f in enumerate(lr.factors):
        f.fixed = k != axis
    lr.lbda.val = x / lost.max()
    lr.lbda.fixed = True
    e = float(np.exp(-lr.lbda.val * lost[lost > 0]).sum())

    def stage(n):
        c = 0
        for i in range(n):
            lr.factors[axis].val = v.copy()
            with Api('infer'):
                util.sweeps(m, 1)
            c += int(((lr.factors[axis].val != v)[:, 0] & (lost > 0)).sum())
        return c, n * e

    def off(c, e):
        return c < .1 * e or c > 3.5 * e
    c, ee = stage(2)
    obs.count('rare_flips', c)
    obs.evals += 1
    if off(c, ee):
        c, ee = stage(6)
        obs.ok(not off(c, ee), 'rare', '%s: %d flips of probability e^-%.3g among %d updates, expected %.1f' % (label, c, x, 6 * N, ee))
