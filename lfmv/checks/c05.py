import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.world import World, FlipMonitor, calibrated, one_per_row, several_per_row, judge_rows, together

PROPERTY = 'C05'
RULE = ('one case = family structure (with/without own child, 1 or 2 parent layers, 2D or 3D child layer, three '
        'levels) x models of all layers x how it was assembled (at once, parents added after an inference). One entry '
        'per row of the matrix under test is free; one sweep of Machine.infer is run and each free entry judged '
        'against the exact conditional log-odds (own data term + each parent\'s dispersion times its own product + '
        'prior). Distinct non-trivial = distinct (structure, models, state) in which parents contribute.')
REQUIRED = {'pairs_of_entries': 300, 'successive_updates': 80, 'relatives_changed': 300, 'must_flip_informative': 1500, 'must_stay': 800, 'chance_flips': 1000, 'late_parents': 60,
            'too_many_rejected': 6, 'two_parents': 100, 'no_child': 100, 'three_levels': 20, 'child_3d': 50, 'calibrations': 3, 'held_dispersions': 1500, 'rows_one_by_one': 1000, 'rows_depending_on_earlier_updates': 40,  'wide': 100}

STRUCT = ['child1', 'child1', 'child1_3d', 'nochild1', 'nochild2', 'nochild2', 'child2', 'child2', 'deep', 'parentfactor']


def cases(tier, seed):
    out = []
    rng = util.rng_of('c05cases', seed)
    E = ref.EIGHT
    reps = 3 if tier == 'quick' else 40
    for r in range(reps):
        for st in STRUCT:
            perm = [[E[i] for i in rng.permutation(8)] for _ in range(3)]
            for i in range(8):
                out.append({'struct': st, 'models': [p[i] for p in perm], 'seed': [seed, r, i]})
        for i in range(4):
            out.append({'struct': 'toomany', 'models': [E[int(k)] for k in rng.integers(8, size=4)], 'seed': [seed, r, i], 'child': i % 2})
    return out


def rnd(rng, a, b):
    return int(rng.integers(a, b + 1))


def make(rng, st, models, big=False):
    w = World()
    dens = rng.choice([.3, .5, .7])
    N, D, L, Q, R = rnd(rng, 3, 10), rnd(rng, 1, 5), rnd(rng, 1, 4), rnd(rng, 1, 4), rnd(rng, 1, 3)

    if big:     # more than 127 cells per entry
        N, D, L = rnd(rng, 3, 6), rnd(rng, 140, 300), rnd(rng, 1, 2)

    def mat(*s):
        return util.pm(rng, s, dens)

    miss = rng.choice([0, .3])
    if st in ('child1', 'child2', 'deep', 'parentfactor'):
        w.mats['X'] = util.data(rng, (N, D), .5, miss)
        f = w.add_layer('X', [mat(N, L), mat(D, L)], models[0], 1.)
        ax = rnd(rng, 0, 1)
        t = f[ax]
        n, l = w.mats[t].shape
        g = w.add_layer(t, [mat(n, Q), mat(l, Q)], models[1], 1.)
        if st == 'child2':
            w.add_layer(t, [mat(n, R), mat(l, R)], models[2], 1.)
        if st == 'deep':
            # t2 = factor of the parent layer that is itself the child of a further layer
            t = g[rnd(rng, 0, 1)]
            n, l = w.mats[t].shape
            w.add_layer(t, [mat(n, R), mat(l, R)], models[2], 1.)
        if st == 'parentfactor':
            t = g[rnd(rng, 0, 1)]
    elif st == 'child1_3d':
        M = rnd(rng, 1, 3)
        ds = [rnd(rng, 1, 4), rnd(rng, 1, 4), M]
        if big:
            ds = [15, 16, 17]
        ax = rnd(rng, 0, 2)
        ds[ax] = N
        w.mats['X'] = util.data(rng, ds, .5, miss)
        f = w.add_layer('X', [mat(d, L) for d in ds], models[0], 1.)
        t = f[ax]
        w.add_layer(t, [mat(N, Q), mat(L, Q)], models[1], 1.)
    else:   # nochild
        w.mats['X'] = mat(N, D)
        t = 'X'
        w.prior['X'] = .5
        w.add_layer('X', [mat(N, Q), mat(D, Q)], models[0], 1.)
        if st == 'nochild2':
            w.add_layer('X', [mat(N, R), mat(D, R)], models[1], 1.)
    w.fixed = set(w.mats) - {t}
    if rng.random() < .3:
        # evidence consistent with the products, for larger scores
        ly = w.layers[0]
        if ly['child'] != t:
            w.mats['X'] = np.where(w.mats['X'] != 0, w.layer_product(ly, [w.mats[n] for n in ly['factors']]), 0).astype(np.int8)
    return w, t


def settings(rng, w, t, where, kind):
    if kind == 'threshold':
        mult = [1, 2, 3, 4]
        rng.shuffle(mult)
        for ly, k in zip(w.layers, mult):
            ly['lbda'] = 60. * k
        w.prior[t] = .5
        tot = sorted({int(round(w.log_odds(t, r, c)[0] / 60)) for r, c in where})
        ok = [s for s in tot if -1 <= s <= 10]
        s = int(rng.choice(ok)) if ok else 0
        th = min(max(s + float(rng.choice([-.5, .5])), -.5), 10.5)
        w.prior[t] = float(ref.expit(-60. * th))
    else:
        for ly in w.layers:
            ly['lbda'] = float(rng.choice([0., .3, .8, 1.7]))
        w.prior[t] = float(rng.choice([.5, .5, .2, .9, 1e-3, 1e-7, 1 - 1e-7]))
        if w.prior[t] in (1e-7, 1 - 1e-7):      # evidence as strong as the prior
            for ly in w.layers:
                ly['lbda'] = float(rng.choice([3., 6.5, 13., 14.]))


def free(rng, w, t):
    if all(t not in ly['factors'] for ly in w.layers):
        # entries of a matrix without child are independent: leave many of them free
        mask = (rng.random(w.mats[t].shape) < .2).astype(np.int8)
        if mask.all():
            mask[:] = 0
        where = [tuple(int(k) for k in x) for x in np.argwhere(mask == 0)]
    else:
        mask, where = one_per_row(rng, w.mats[t].shape)
    w.mask[t] = mask
    return where


def probe(obs, mon, w, t, where, label):
    before = w.mats[t].copy()
    w.push()
    held = int(w.mats[t].sum()) % 2 == 0      # dispersions given by the user and held, half of the time
    w.fix_lbdas(held)
    obs.count('held_dispersions', held)
    with Api('Machine.infer (%s)' % label):
        util.sweeps(w.machine, 1)
    after = np.asarray(w.obj[t].val)
    obs.ok(after.shape == before.shape, 'shape', '%s: shape changed' % label)
    mon.judge(w, t, before, after, where)
    pinned = w.mask[t] == 1
    obs.ok(np.array_equal(after[pinned], before[pinned]), 'fixed', '%s: pinned entries changed' % label)


def run(case, obs):
    rng = util.rng_of('c05', case)
    st, models = case['struct'], case['models']
    if st == 'toomany':
        return toomany(case, obs, rng)
    label = '%s %s' % (st, '/'.join(models))
    mon = FlipMonitor(obs, label)
    for trial in range(5):
        w, t = make(rng, st, models, big=trial == 4)
        late = trial % 2 == 1
        where = free(rng, w, t)
        settings(rng, w, t, where, 'threshold' if trial < 3 else 'plain')
        obs.count('wide', trial == 4)
        if late:
            # assemble all but the last layer(s), infer, then add the remaining parents
            k = rnd(rng, 1, len(w.layers) - 1) if len(w.layers) > 1 else 0
            with Api('building (%s)' % label):
                w.realise(until=k)
            for n, o in w.obj.items():
                o.fixed = False if rng.random() < .5 or n == t else True
            if 'X' in w.obj and t != 'X':
                w.obj['X'].fixed = True
            if k == 0:
                w.obj['X'].fixed = True
            if w.machine.layers:
                with Api('Machine.infer before parents are added (%s)' % label):
                    util.sweeps(w.machine, 1)
            with Api('adding parents (%s)' % label):
                for ly in w.layers[k:]:
                    w.realise_layer(ly)
            obs.count('late_parents')
        else:
            with Api('building (%s)' % label):
                w.realise()
        lab = label + (' (parents added after an inference)' if late else '')
        probe(obs, mon, w, t, where, lab)
        for rep in range(3):
            w.mats[t] = util.pm(rng, w.mats[t].shape, .5)
            if rng.random() < .6:      # relatives change between inferences
                for n in w.mats:
                    if n != t and rng.random() < .6:
                        v = util.pm(rng, w.mats[n].shape, rng.choice([.3, .5, .7]))
                        w.mats[n] = np.where(w.mats[n] == 0, 0, v).astype(np.int8)
                obs.count('relatives_changed')
            where = free(rng, w, t)
            settings(rng, w, t, where, ['threshold', 'threshold', 'plain'][rep])
            probe(obs, mon, w, t, where, lab + ' (repeated)')
            obs.saw(label, late, core.digest(*w.mats.values()), [ly['lbda'] for ly in w.layers], w.prior[t])
        obs.count({'child2': 'two_parents', 'nochild2': 'two_parents', 'deep': 'three_levels',
                   'child1_3d': 'child_3d'}.get(st, 'one_parent'), 4)
        if st.startswith('nochild'):
            obs.count('no_child', 4)
    # several free entries per row: each update sees the outcome of those before
    if not st.startswith('nochild'):
        for trial in range(4):
            w, t = make(rng, st, models)
            where = free(rng, w, t)
            settings(rng, w, t, where, 'threshold')
            if w.mats[t].shape[1] < 2:
                continue
            w.mask[t] = several_per_row(rng, w.mats[t].shape)
            w.realise()
            w.fix_lbdas(trial % 2 == 0)
            with Api('Machine.infer (%s)' % label):
                util.sweeps(w.machine, 1)
            judge_rows(obs, w, t, w.mats[t].copy(), np.asarray(w.obj[t].val), label)
    # frequencies
    if case['seed'][2] % 4 == 0:
        w, t = make(rng, st, models)
        w.realise()

        def collect(m, k):
            for i in range(40 * k):
                w.mats[t] = util.pm(rng, w.mats[t].shape, .5)
                wh = free(rng, w, t)
                settings(rng, w, t, wh, 'plain')
                for ly in w.layers:
                    ly['lbda'] = float(rng.choice([.2, .4, .8]) if i % 4 else rng.choice([.03, .08]))
                if i % 4 == 0:
                    w.prior[t] = .5     # weak evidence
                probe(obs, m, w, t, wh, label + ' (frequency)')
        calibrated(obs, label, collect)
        for ly in w.layers:
            ly['lbda'] = .15
        w.prior[t] = .35
        w.mats[t] = -np.ones(w.mats[t].shape, dtype=np.int8)
        wh = free(rng, w, t)

        def update():
            w.push()
            with Api('Machine.infer'):
                util.sweeps(w.machine, 1)
            return np.asarray(w.obj[t].val)
        together(obs, w, t, wh, update, label)
    obs.sample = {'structure': st, 'models': models, 'shapes': {n: list(a.shape) for n, a in w.mats.items()}, 'under_test': t,
                  'lbda': [ly['lbda'] for ly in w.layers], 'prior': w.prior[t]}


def toomany(case, obs, rng):
    """three parent layers for a matrix that is sampled: must be refused, not silently reduced"""
    lom = core.load()
    N, D = rnd(rng, 2, 5), rnd(rng, 2, 4)
    with Api('building a machine'):
        m = lom.Machine()
        X = m.add_matrix(util.pm(rng, (N, D)), fixed=bool(case['child']))
        t = X
        if case['child']:
            t = m.add_layer(latent_size=2, child=X, model=case['models'][3]).factors[rnd(rng, 0, 1)]
    refused = None
    late = rng.random() < .5
    try:
        with core.quiet():
            for i in range(3):
                if late and i == 2:
                    util.sweeps(m, 1)
                m.add_layer(latent_size=2, child=t, model=case['models'][i])
            util.sweeps(m, 1)
    except Exception as e:
        refused = e
    obs.ok(refused is not None, 'too_many_parents', 'a third parent layer was accepted and inference ran without complaint')
    obs.count('too_many_rejected')
    obs.saw('toomany', case['models'], late)
