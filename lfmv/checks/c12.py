import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.tap import Tap

PROPERTY = 'C12'
RULE = ('one case = architecture (eight models 2D/3D, MAX-AND, qL-AND, hierarchies with free middle and data matrices, growing layers next to others) driven through 2-4 '
        'inferences with different numbers of samples, windows and fixed members. A tap copies every state after every update; '
        'the copies are compared with traces, means and MAP states afterwards. Distinct non-trivial = distinct (architecture, '
        'sample count, trace contents).')
REQUIRED = {'inferences': 300, 'trace_entries': 5000, 'dispersion_entries': 1500, 'means': 500, 'maps': 300, 'longer_traces_replaced': 40,
            'aliasing_probes': 300, 'entries_differing_between_samples': 500, 'long_traces': 10, 'annealed': 20, 'growing_next_to_others': 8, 'means_of_newly_fixed': 60}


def cases(tier, seed):
    out = []
    for r in range(2 if tier == 'quick' else 24):
        for m in ref.EIGHT:
            for K in (2, 3):
                out.append({'arch': m, 'K': K, 'seed': [seed, r]})
        for m in ('MAX-AND', 'qL-AND'):
            out.append({'arch': m, 'K': 2, 'seed': [seed, r]})
        for i in range(6):
            out.append({'arch': 'hier', 'K': 2 + (i == 5), 'seed': [seed, r, i]})
        for i in range(3):
            out.append({'arch': 'mixed', 'K': 2 + (i == 2), 'seed': [seed, r, i]})
    return out


def build(rng, arch, K, size=''):
    lom = core.load()
    m = lom.Machine()
    X = util.data(rng, util.dims(rng, K, 1, 6 if K == 2 else 4), .5, .1)
    L = int(rng.choice([1, 2, 3, 5]))
    if size == 'long':
        X = util.data(rng, util.dims(rng, K, 1, 3), .5, .1)
        L = int(rng.choice([1, 2]))
    if size == 'big':
        X = util.data(rng, (2, int(rng.integers(257, 400))) if K == 2 else (2, 3, int(rng.integers(129, 200))), .5, .1)
        L = int(rng.choice([1, 3]))
    if arch == 'mixed':
        # a growing layer next to others
        parts = ['OR-AND-IBP', ref.EIGHT[int(rng.integers(8))], ['MAX-AND', 'qL-AND', 'OR-AND'][int(rng.integers(3))]]
        for model in [parts[k] for k in rng.permutation(3)[:int(rng.integers(2, 4))]]:
            Y = X if model in ref.EIGHT else util.data(rng, util.dims(rng, 2, 2, 6), .5, .1)
            m.add_layer(latent_size=L, child=m.add_matrix(Y.copy(), fixed=True), model=model)
    elif arch != 'hier':
        d = m.add_matrix(X, fixed=True)
        m.add_layer(latent_size=L, child=d, model=arch)
    else:
        free = rng.random() < .4 and K == 2
        d = m.add_matrix(util.pm(rng, X.shape) if free else X, fixed=not free)
        l0 = m.add_layer(latent_size=L, child=d, model=ref.EIGHT[int(rng.integers(8))])
        l1 = m.add_layer(latent_size=2, child=l0.factors[int(rng.integers(K))], model=ref.EIGHT[int(rng.integers(8))])
        if rng.random() < .5:
            m.add_layer(latent_size=2, child=l1.factors[int(rng.integers(2))], model=ref.EIGHT[int(rng.integers(8))])
    return m


def run(case, obs):
    rng = util.rng_of('c12', case)
    arch, K = case['arch'], case['K']
    for trial in range(4 if arch != 'mixed' else 2):
        with Api('building'):
            size = {2: 'big' if case['seed'][1] == 0 else '', 3: 'long'}.get(trial, '')
            m = build(rng, arch, K, size)
        label = '%s %dD' % (arch, K)
        last = {}
        for x in m.members:
            with Api('mean before inference'):
                obs.ok(np.array_equal(x.mean(), x.val), 'mean', label + ': mean of a matrix without trace is not its state')
        for rep in range(int(rng.integers(2, 5)) if not size else 2):
            growing = [f for l in m.layers if l.model == 'OR-AND-IBP' for f in l.factors]
            obs.count('growing_next_to_others', bool(growing))
            for x in m.members:
                if rng.random() < .2 and not any(x is g for g in growing):
                    latent = [f for l in m.layers for f in list(l.factors) + ([l.q] if l.model == 'qL-AND' else [])]
                    x.fixed = not x.fixed if any(x is f for f in latent) else x.fixed
            for l in m.layers:
                l.lbda.fixed = bool(rng.random() < .2)
                if l.model not in ('MAX-AND',):
                    l.lbda.val = float(rng.choice([.05, .8, 3.]))
            S = int(rng.choice([1, 2, 3, 5, 9, 20]))
            if size:
                S = (1100 if arch == 'OR-AND' else int(rng.integers(130, 330))) if size == 'long' and rep == 0 else int(rng.integers(2, 6))
            obs.count('long_traces', S > 129)
            kw = dict(no_samples=S, burn_in_min=int(rng.integers(0, 4)), burn_in_max=int(rng.integers(0, 9)),
                      convergence_window=int(rng.choice([2, 3, 7, 31])), convergence_eps=float(rng.choice([1e-3, .5])))
            mem = [x for x in m.members if not x.fixed]
            lbs = [x for x in m.lbdas if not x.fixed]
            shapes = [x.val.shape for x in mem]
            n = len(mem) + len(lbs)
            states = []

            def after(kind, x):
                states.append(([np.array(y.val) for y in mem], [np.array(l.val, dtype=float) for l in lbs]))
            tap = Tap(m, after=after).install()
            m.anneal = bool(arch not in ('MAX-AND', 'qL-AND', 'mixed') and rng.random() < .2)
            obs.count('annealed', m.anneal)
            with Api('Machine.infer, %s, %s' % (label, kw)):
                m.infer(**kw)
            tap.remove()
            obs.count('inferences')
            for x in list(m.members) + list(m.lbdas):
                if x.fixed:             # not sampled: the average is the constant state, whatever was recorded before
                    with Api('mean of a fixed member'):
                        v = np.asarray(x.mean(), dtype=float)
                    obs.ok(v.shape == np.shape(x.val) and np.allclose(v, np.asarray(x.val, dtype=float), rtol=1e-6, atol=1e-7), 'mean',
                           lambda: '%s, inference %d: the mean of a fixed member is not its state' % (label, rep + 1))
                    obs.count('means_of_newly_fixed', id(x) in last)
                    last.pop(id(x), 0)
            if not n:
                continue
            what = '%s, inference %d with %d samples' % (label, rep + 1, S)
            obs.ok((m.anneal or len(states) % n == 0) and len(states) >= n * S, 'sweeps', '%s: %d updates of %d members' % (what, len(states), n))
            ends = [states[len(states) - n * (S - t) + n - 1] for t in range(S)]
            for i, x in enumerate(mem):
                tr = x.trace
                if any(x is g for g in growing):
                    # states have varying numbers of columns, absent ones are recorded as off
                    width = tr.shape[-1]
                    obs.ok(all(e[0][i].shape[0] == shapes[i][0] and e[0][i].shape[1] <= width for e in ends), 'trace_shape',
                           lambda: '%s: trace of growing matrix %d has shape %s' % (what, i, tr.shape))
                    shapes[i] = (shapes[i][0], width)
                    for e in ends:
                        e[0][i] = np.pad(e[0][i], [(0, 0), (0, width - e[0][i].shape[1])], mode='constant', constant_values=-1)
                    obs.ok(x.val.dtype == np.int8 and bool((np.abs(x.val) == 1).all()), 'type', what + ': growing matrix')
                    live = np.pad(x.val, [(0, 0), (0, width - x.val.shape[1])], mode='constant', constant_values=-1)
                else:
                    live = x.val
                obs.ok(isinstance(tr, np.ndarray) and tr.shape == (S,) + shapes[i], 'trace_shape',
                       lambda: '%s: trace of matrix %d has shape %s, expected %s' % (what, i, np.shape(tr), (S,) + shapes[i]))
                obs.ok(tr.dtype == np.int8 and x.val.dtype == np.int8 and live.shape == shapes[i], 'type',
                       lambda: '%s: types %s/%s, shape %s' % (what, tr.dtype, x.val.dtype, x.val.shape))
                is_q = any(l.model == 'qL-AND' and x is l.q for l in m.layers)
                dom = (lambda a: bool(((a >= 1) & (a <= 5)).all())) if is_q else (lambda a: bool((np.abs(a) == 1).all()))
                obs.ok(dom(tr) and dom(x.val), 'domain', lambda: '%s: values %s' % (what, np.unique(tr)))
                for t in range(S):
                    obs.ok(np.array_equal(tr[t], ends[t][0][i]), 'trace',
                           lambda: '%s: trace entry %d of matrix %d is not the state after that sweep: %s' % (what, t, i, util.diff_at(tr[t], ends[t][0][i])))
                obs.count('trace_entries', S)
                obs.count('entries_differing_between_samples', sum(not np.array_equal(tr[t], tr[t - 1]) for t in range(1, S)))
                obs.ok(np.array_equal(tr[-1], live), 'last', '%s: last trace entry is not the current state' % what)
                obs.count('longer_traces_replaced', last.get(id(x), 0) > S)
                last[id(x)] = S
                with Api('mean'):
                    mean = np.asarray(x.mean())
                obs.ok(mean.shape == shapes[i] and np.allclose(mean, np.stack([e[0][i] for e in ends]).astype(float).mean(axis=0), rtol=0, atol=1e-9),
                       'mean', what + ': mean is not the average over the samples')
                obs.count('means')
            for i, l in enumerate(lbs):
                tr = np.asarray(l.trace)
                last[id(l)] = S
                v0 = ends[0][1][i]
                obs.ok(tr.shape == (S,) + v0.shape, 'trace_shape', '%s: dispersion trace has shape %s' % (what, tr.shape))
                for t in range(S):
                    e = ends[t][1][i]
                    obs.ok(bool(np.all(np.abs(tr[t] - e) <= 1e-6 * (1 + np.abs(e)))), 'trace',
                           lambda: '%s: dispersion trace entry %d is %s, was %s' % (what, t, tr[t], e))
                obs.ok(bool(np.all(np.abs(tr[-1] - np.asarray(l.val)) <= 1e-6 * (1 + np.abs(l.val)))), 'last', what + ': last dispersion entry')
                obs.ok(np.allclose(l.mean(), tr.astype(float).mean(axis=0), rtol=1e-5, atol=1e-6), 'mean', what + ': mean of dispersion')
                obs.count('dispersion_entries', S)
            obs.saw(label, S, core.digest(*[x.trace for x in mem]))
            # the record must not be tied to the live state
            for i, x in enumerate(mem):
                keep = np.array(x.trace)
                mean = np.array(x.mean())
                old = np.array(x.val)
                x.val *= -1
                obs.ok(np.array_equal(x.trace, keep), 'alias', what + ': changing the state changes the trace')
                x.val *= -1
                obs.count('aliasing_probes')
                is_q = any(l.model == 'qL-AND' and x is l.q for l in m.layers)
                if is_q or any(x is g for g in growing):
                    continue
                if rng.random() < .6:
                    with Api('set_to_map'):
                        x.set_to_map()
                    v = np.asarray(x.val)
                    sg = np.sign(mean)
                    obs.ok(v.shape == old.shape and v.dtype == np.int8 and bool((np.abs(v) == 1).all()) and bool(((v == sg) | (sg == 0)).all()),
                           'map', lambda: '%s: set_to_map is not the sign of the mean' % what)
                    obs.ok(np.array_equal(x.trace, keep), 'alias', what + ': set_to_map changed the trace')
                    obs.count('maps')
    obs.sample = {'arch': arch, 'members': [list(s) for s in shapes], 'samples': S,
                  'updates_recorded': len(states), 'mean_of_first_dispersion': float(np.mean(m.lbdas[0].val))}
