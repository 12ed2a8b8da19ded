import itertools
import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.tap import Tap

PROPERTY = 'C11'
RULE = ('one case = a batch of inferences whose every update is logged (scripted stand-ins for the update functions that play chosen '
        'dispersion trajectories - constant, drifting, oscillating, saturating, step - or the real update functions of all '
        'models). The log is checked offline against the schedule automaton: sweep composition, minimum phase, freezing, annealing, '
        'windows and stopping, number of samples, order of updates. Distinct non-trivial = distinct (settings, trajectories).')
REQUIRED = {'inferences': 400, 'sweeps': 10000, 'stopped_by_convergence': 90, 'stopped_by_max': 90, 'second_window_or_later': 40,
            'annealed_sweeps': 200, 'frozen_sweeps': 200, 'several_dispersions': 90, 'orders': 12, 'real_runs': 60, 'min_exceeds_max': 15,
            'vector_dispersions': 20, 'repeated': 60, 'long_schedules': 50, 'very_long_burn_in': 20}


def cases(tier, seed):
    out = []
    n = 12 if tier == 'quick' else 120
    for r in range(n):
        out.append({'kind': 'script', 'seed': [seed, r]})
        out.append({'kind': 'script', 'seed': [seed, r, 1]})
    for r in range(4 if tier == 'quick' else 40):
        out.append({'kind': 'order', 'seed': [seed, r]})
    for r in range(1 if tier == 'quick' else 10):
        for m in ref.EIGHT + ['MAX-AND', 'qL-AND', 'OR-AND-IBP', 'hier']:
            out.append({'kind': 'real', 'model': m, 'seed': [seed, r]})
    return out


# -- the automaton ---------------------------------------------------------------------------------

class Log(object):
    """events: ('m', index, lambdas now) and ('l', index, lambdas now (after))"""

    def __init__(self, machine):
        self.m = machine
        self.ev = []

    def values(self):
        return [np.array(l.val, dtype=float) for l in self.m.lbdas]


def parse(obs, what, ev, M, Ls):
    """split into sweeps; every sweep: each free matrix once, then the free dispersions once or not at all"""
    sweeps = []
    pos = 0
    while pos < len(ev):
        chunk = ev[pos:pos + M]
        ids = [e[1] for e in chunk]
        obs.ok(len(chunk) == M and all(e[0] == 'm' for e in chunk) and len(set(ids)) == M, 'sweep',
               lambda: '%s: sweep %d does not update each of the %d free matrices once: %s' % (what, len(sweeps) + 1, M, [e[:2] for e in ev[pos:pos + M]]))
        pos += M
        ls = []
        while pos < len(ev) and ev[pos][0] == 'l' and len(ls) < len(Ls):
            ls.append(ev[pos])
            pos += 1
        obs.ok(not ls or sorted(e[1] for e in ls) == sorted(Ls), 'sweep',
               lambda: '%s: sweep %d does not update each free dispersion once: %s' % (what, len(sweeps) + 1, [e[:2] for e in ls]))
        if pos < len(ev) and ev[pos][0] == 'l' and M:
            obs.fail('sweep', '%s: sweep %d updates dispersions more than once' % (what, len(sweeps) + 1))
        sweeps.append((chunk, ls))
    return sweeps


def halves(win, vector):
    """admissible |difference| on the probability scale; list of lower/upper bounds per series"""
    W = len(win)
    out = []
    for cut in {W // 2, W - W // 2}:
        a, b = np.mean(win[:cut], axis=0), np.mean(win[cut:], axis=0)
        d = np.abs(ref.expit(a) - ref.expit(b))
        out.append(np.atleast_1d(d))
        if vector:                      # already probabilities
            out.append(np.atleast_1d(np.abs(a - b)))
    return np.min(out, axis=0), np.max(out, axis=0)


def verify(obs, what, log, kw, free, start, annealed, vector=()):
    """free: (number of free matrices, indices of free dispersions); start: dispersions before the inference"""
    obs.count('inferences')
    M, Ls = free
    W, eps, lo, hi, S, fix = (kw['convergence_window'], kw['convergence_eps'], kw['burn_in_min'], kw['burn_in_max'],
                              kw['no_samples'], kw.get('fix_lbda_iters', 0))
    sw = parse(obs, what, log.ev, M, Ls)
    T = len(sw)
    obs.count('sweeps', T)
    obs.ok(T >= lo + S, 'too_few', '%s: %d sweeps, at least %d burn-in and %d sampling sweeps requested' % (what, T, lo, S))
    after = []
    cur = start
    for chunk, ls in sw:
        cur = ls[-1][2] if ls else cur
        after.append(cur)
    # minimum phase
    for i in range(1, lo + 1):
        chunk, ls = sw[i - 1]
        updated = bool(ls)
        if annealed:
            obs.ok(not updated, 'anneal', '%s: dispersion updated in sweep %d of the annealing phase' % (what, i))
            if chunk:
                for k in Ls:
                    e = start[k] * (i - 1) / lo if i > 1 else start[k]
                    for c in chunk:
                        obs.ok(np.allclose(c[2][k], e, rtol=1e-9, atol=1e-12), 'anneal',
                               lambda: '%s: dispersion %d is %s during sweep %d of %d annealing sweeps, expected %s' % (what, k, c[2][k], i, lo, e))
                obs.count('annealed_sweeps')
            nxt = sw[i][0][0][2] if i < T and sw[i][0] else None
            if i == lo and nxt is not None:
                for k in Ls:
                    obs.ok(np.allclose(nxt[k], start[k], rtol=1e-9, atol=1e-12), 'anneal',
                           lambda: '%s: annealing ended at dispersion %s instead of its target %s' % (what, nxt[k], start[k]))
        elif i <= fix:
            obs.ok(not updated or not Ls, 'freeze', '%s: dispersion updated in sweep %d although frozen for %d sweeps' % (what, i, fix))
            for c in chunk:
                for k in Ls:
                    obs.ok(np.array_equal(c[2][k], start[k]), 'freeze', '%s: frozen dispersion changed in sweep %d' % (what, i))
            obs.count('frozen_sweeps')
        else:
            obs.ok(updated or not Ls, 'no_update', '%s: no dispersion update in sweep %d (frozen for %d)' % (what, i, fix))
    for i in range(lo + 1, T + 1):
        obs.ok(bool(sw[i - 1][1]) or not Ls, 'no_update', '%s: no dispersion update in sweep %d' % (what, i))
    # when may / must burn-in have ended
    admissible = []
    n = lo
    why = 'max'
    while True:
        done = n - lo
        if done and done % W == 0:
            if n > T:
                break
            conv, maybe = True, True
            for k in Ls:
                win = [after[j][k] for j in range(n - W, n)]
                dmin, dmax = halves(win, k in vector)
                tol = 1e-5
                conv = conv and bool(np.all(dmax < eps - tol))
                maybe = maybe and eps > 0 and bool(np.all(dmin < eps + tol))
            if conv:
                admissible.append((n, 'converged'))
                break
            if maybe:
                admissible.append((n, 'borderline'))
        if n >= hi:
            admissible.append((n, 'max'))
            break
        n += 1
        if n > T + W:
            break
    hits = [(b, w) for b, w in admissible if b + S == T]
    obs.ok(bool(hits), 'stopping',
           lambda: '%s: %d burn-in sweeps followed by %d sampling sweeps expected (%s), but %d sweeps were run; min %d, max %d, window %d, eps %g' % (
               what, admissible[-1][0] if admissible else -1, S, admissible, T, lo, hi, W, eps))
    b, why = hits[0]
    obs.count({'max': 'stopped_by_max', 'converged': 'stopped_by_convergence', 'borderline': 'borderline'}[why])
    obs.count('second_window_or_later', why == 'converged' and b - lo > W)
    obs.count('min_exceeds_max', lo > hi)
    obs.count('several_dispersions', len(Ls) > 1)
    obs.count('vector_dispersions', any(k in vector for k in Ls))
    return sw, b


# -- trajectories ----------------------------------------------------------------------------------

def trajectory(rng, lo, W):
    """function sweep -> dispersion (scalar)"""
    kind = int(rng.integers(8))
    a = float(rng.uniform(.2, 3))
    h = max(1, W // 2)
    if kind == 0:
        return lambda i: a
    if kind == 1:           # drift over many windows
        s = float(rng.choice([.02, .1, .3])) * rng.choice([-1, 1])
        return lambda i: max(0., a + s * i if s > 0 else 6 + s * i)
    if kind == 2:           # saturating: large raw differences, none in probability
        return lambda i: 9. + .8 * i
    if kind == 3:           # constant in the minimum phase, then steps, then constant
        k = lo + int(rng.integers(0, 4)) * W + h
        return lambda i: a if i <= lo else (a + 2. if i <= k else .1)
    if kind == 4:           # oscillation within halves
        return lambda i: a + (1. if i % 2 else -1.)
    if kind == 5:           # first half always above / below the second
        sgn = float(rng.choice([-1, 1]))
        return lambda i: 1.5 + sgn * (1. if ((i - lo - 1) % W) < h else -1.)
    if kind == 6:           # misleading windows that are not aligned with the minimum phase
        k = lo + int(rng.integers(1, 3)) * W + int(rng.integers(1, W))
        return lambda i: (.3 + .5 * (i % W)) if i <= k else 2.
    v = rng.uniform(0, 4, size=4000)
    d = float(rng.uniform(.01, 1))
    return lambda i: float(2 + d * (v[i % 4000] - 2))


def settings(rng, long=False):
    W = int(rng.choice([2, 3, 4, 5, 6, 7, 10, 15]))
    lo = int(rng.choice([0, 0, 1, 2, 3, 5, 8, 13]))
    if long:
        W = int(rng.choice([2, 9, 31, 64, 130]))
        lo = int(rng.choice([0, 31, 101, 130, 257]))
    hi = int(rng.choice([0, 1, lo, lo + 1, lo + W - 1, lo + W, lo + W + 1, lo + 2 * W, lo + 3 * W + 1, lo + 6 * W, lo + 60]))
    kw = dict(burn_in_min=lo, burn_in_max=hi, convergence_window=W, no_samples=int(rng.choice([0, 1, 2, 3, 7])),
              convergence_eps=float(rng.choice([0, 1e-4, 5e-3, .02, .1, .6, .9, 1.])), print_step=int(rng.choice([1, 3, 10, 100])))
    return kw


def build(rng, kind=None):
    lom = core.load()
    m = lom.Machine()
    free = rng.random() < .3
    X = util.pm(rng, (4, 3))
    d = m.add_matrix(X, fixed=not free)
    model = 'MAX-AND' if rng.random() < .15 else ref.EIGHT[int(rng.integers(8))]
    layers = [m.add_layer(latent_size=2, child=d, model=model)]
    if model != 'MAX-AND':
        for _ in range(int(rng.integers(0, 3))):
            layers.append(m.add_layer(latent_size=2, child=layers[0].factors[len(layers) - 1], model=ref.EIGHT[int(rng.integers(8))]))
    return m, layers


def scripted(case, obs, rng):
    for trial in range(40):
        with Api('building'):
            m, layers = build(rng)
        vector = {i for i, l in enumerate(layers) if l.model == 'MAX-AND'}
        for f in m.members:
            if f.fixed is False and rng.random() < .3:
                f.fixed = True
        for l in layers:
            l.lbda.fixed = bool(rng.random() < .25)
        if all(l.lbda.fixed for l in layers) and all(f.fixed for f in m.members):
            layers[0].lbda.fixed = False
        for rep in range(1 + int(rng.random() < .4)):
            kw = settings(rng, trial % 10 == 9)
            obs.count('long_schedules', trial % 10 == 9)
            anneal = bool(rng.random() < .3) and not vector and kw['burn_in_min'] > 0
            if not anneal and rng.random() < .4:
                kw['fix_lbda_iters'] = int(rng.choice([1, 2, kw['burn_in_min'], kw['burn_in_min'] + 3]))
            if all(x.fixed for x in m.members):      # sweeps are observable by dispersion updates only
                anneal = False
                kw.pop('fix_lbda_iters', 0)
            m.anneal = anneal
            free = [x for x in m.members if not x.fixed]
            Ls = [i for i, l in enumerate(layers) if not l.lbda.fixed]
            for i, l in enumerate(layers):
                l.lbda.val = np.array([.8, .6, .1]) if i in vector else float(rng.choice([.05, .7, 2.3, 0., 12., 25.]))
            tj = [trajectory(rng, kw['burn_in_min'], kw['convergence_window']) for _ in layers]
            endless = trial % 20 == 5 and rep == 0       # does not settle for many hundred sweeps
            if endless:
                W = int(rng.choice([10, 40, 75]))
                eps = float(rng.choice([.004, .02]))
                kw.update(burn_in_max=int(rng.integers(620, 1250)), convergence_window=W, convergence_eps=eps, burn_in_min=int(rng.choice([0, 7])))
                a = float(rng.uniform(.6, 1.6))
                d = 3 * eps / float(ref.expit(a) * (1 - ref.expit(a)))       # halves differ by six tolerances
                tj = [lambda i, lo=kw['burn_in_min']: a + (d if (i - lo - 1) % W < W // 2 else -d)] * len(layers)
                obs.count('very_long_burn_in')
                anneal = anneal and kw['burn_in_min'] > 0
                m.anneal = anneal
            if rng.random() < .6:           # all or all but one behave alike
                tj = [tj[0]] * (len(layers) - int(rng.integers(2))) + tj
                tj = tj[:len(layers)]
            if rng.random() < .4 and not endless:
                settled = kw['burn_in_min'] + int(rng.integers(1, 4)) * kw['convergence_window']
                tj = [(lambda i, g=g, a=a: g(i) if i <= settled else a) for g, a in zip(tj, rng.uniform(0, 3, len(tj)))]
            tjv = [[tj[i], tj[i - 1], trajectory(rng, kw['burn_in_min'], kw['convergence_window'])] for i in range(len(layers))]
            log = Log(m)
            seen = {}
            limit = (max(kw['burn_in_min'], kw['burn_in_max']) + kw['no_samples'] + 40) * (len(free) + len(Ls) + 1) + 200

            def step():
                if len(log.ev) > limit:
                    raise core.StepLimit('more than %d updates; %s' % (limit, kw))

            frozen = kw['burn_in_min'] if anneal else min(kw['burn_in_min'], kw.get('fix_lbda_iters', 0))

            def mk_m(i):
                def f(x):
                    step()
                    log.ev.append(('m', i, log.values()))
                return f

            def mk_l(i):
                def f(x):
                    step()
                    seen[i] = seen.get(i, 0) + 1
                    t = frozen + seen[i]
                    if i in vector:
                        x.val = np.array([g(t) / 20. for g in tjv[i]])
                    else:
                        x.val = tj[i](t)
                    log.ev.append(('l', i, log.values()))
                return f
            for i, x in enumerate(m.members):
                x.sampling_fct = mk_m(i)
            for i, l in enumerate(layers):
                l.lbda.sampling_fct = mk_l(i)
            start = log.values()
            what = 'scripted %s%s%s' % (kw, ' annealed' if anneal else '', ' (repeated)' if rep else '')
            with Api('infer, ' + what):
                m.infer(**kw)
            sw, b = verify(obs, what, log, kw, (len(free), Ls), start, anneal, vector)
            obs.count('repeated', rep)
            obs.saw(sorted(kw.items()), anneal, [round(float(np.sum(v[2][k])), 6) for s in sw for v in s[1] for k in Ls][:60])
    obs.sample = {'settings': kw, 'annealed': anneal, 'sweeps': len(sw), 'burn_in': b, 'free_matrices': len(free), 'free_dispersions': len(Ls)}


def order(case, obs, rng):
    """the order of updates within a sweep is a fresh random permutation"""
    lom = core.load()
    for phase, K in [(p, k) for p in ('min', 'burn', 'sample') for k in (2, 3)]:
        with Api('building'):
            m = lom.Machine()
            d = m.add_matrix(util.pm(rng, (3, 3, 2)[:K]), fixed=True)
            lr = m.add_layer(latent_size=2, child=d, model='OR-AND')
        orders = []
        cur = []

        def mk(i):
            def f(x):
                cur.append(i)
                if len(cur) == K:
                    orders.append(tuple(cur))
                    del cur[:]
            return f
        for i, x in enumerate(lr.factors):
            x.sampling_fct = mk(i)
        lr.lbda.sampling_fct = lambda x: setattr(x, 'val', float(len(orders) % 2) * 3)
        n = 600
        kw = {'min': dict(burn_in_min=n, burn_in_max=n, no_samples=0), 'burn': dict(burn_in_min=0, burn_in_max=n, no_samples=0,
              convergence_eps=-1.), 'sample': dict(burn_in_min=0, burn_in_max=0, no_samples=n)}[phase]
        with Api('infer'):
            m.infer(**kw)
        obs.ok(len(orders) == n, 'sweep', '%s phase: %d sweeps instead of %d' % (phase, len(orders), n))
        cnt = [orders.count(p) for p in itertools.permutations(range(K))]
        p, _ = ref.chisq_p(cnt, [n / float(len(cnt))] * len(cnt))
        obs.ok(p > 1e-10, 'order', '%s phase: update orders are not random: %s in %d sweeps' % (phase, cnt, n))
        rep = sum(a == b for a, b in zip(orders, orders[1:]))
        p2, _ = ref.chisq_p([rep, n - 1 - rep], [(n - 1) / float(len(cnt)), (n - 1) * (1 - 1. / len(cnt))])
        obs.ok(p2 > 1e-10, 'order', '%s phase: successive update orders are dependent: %d of %d equal' % (phase, rep, n))
        obs.count('orders', len(cnt))
        obs.saw('order', phase, cnt)
    obs.sample = {'phase': phase, 'frequencies_of_the_orders': cnt}


def real(case, obs, rng):
    lom = core.load()
    for trial in range(8):
        model = case['model']
        hier = model == 'hier'
        if hier:
            model = ref.EIGHT[int(rng.integers(8))]
        K = 3 if model in ref.EIGHT and rng.random() < .4 and not hier else 2
        X = util.data(rng, util.dims(rng, K, 3, 6 if K == 2 else 4), .5, .1)
        with Api('building'):
            m = lom.Machine()
            d = m.add_matrix(X, fixed=True)
            lr = m.add_layer(latent_size=2, child=d, model=model)
            if hier:
                m.add_layer(latent_size=2, child=lr.factors[0], model=ref.EIGHT[int(rng.integers(8))])
        if model == 'OR-AND-IBP':
            lr.alpha = 1.
        for rep in range(2):
            kw = settings(rng)
            kw['burn_in_max'] = min(kw['burn_in_max'], 40)
            anneal = model not in ('MAX-AND',) and rng.random() < .3 and kw['burn_in_min'] > 0
            if not anneal and rng.random() < .4:
                kw['fix_lbda_iters'] = 2
            m.anneal = bool(anneal)
            log = Log(m)
            start = log.values()
            mem = list(m.members)
            lb = list(m.lbdas)

            def before(kind, x):
                if kind == 'm':
                    log.ev.append(('m', [i for i, y in enumerate(mem) if y is x][0], log.values()))

            def after(kind, x):
                if kind == 'l':
                    log.ev.append(('l', [i for i, y in enumerate(lb) if y is x][0], log.values()))
            limit = (max(kw['burn_in_min'], kw['burn_in_max']) + kw['no_samples'] + 20) * 8
            tap = Tap(m, before, after, limit=limit).install()
            what = 'real %s %s%s' % (case['model'], kw, ' annealed' if anneal else '')
            with Api('infer, ' + what):
                m.infer(**kw)
            tap.remove()
            sw, b = verify(obs, what, log, kw, (len(tap.objs), list(range(len(lb)))), start, bool(anneal), {0} if model == 'MAX-AND' else ())
            obs.count('real_runs')
            obs.saw('real', case['model'], sorted(kw.items()), b)
    obs.sample = {'model': case['model'], 'settings': kw, 'sweeps': len(sw), 'burn_in': b}


def run(case, obs):
    rng = util.rng_of('c11', case)
    {'script': scripted, 'order': order, 'real': real}[case['kind']](case, obs, rng)
