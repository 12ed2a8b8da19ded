import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api

PROPERTY = 'C13'
RULE = ('one case = model x 2D/3D (plus hierarchies, MAX-AND, qL-AND and IBP layers). For random machines, before and after (repeated) inference, with fixed or free '
        'factors and dispersions, every technique x noisy x mapping x lazy combination is requested from the layer and recomputed '
        'from traces and states by explicit truth tables / exact probabilities; states and traces are digested around each '
        'request. Distinct non-trivial = distinct (model, technique, flags, output).')
REQUIRED = {'unknown_refused': 60, 'outputs': 5000, 'mc': 600, 'factor_mean': 600, 'factor_map': 600, 'point_estimate': 600, 'noisy': 1000, 'rescaled': 1000, 'lazy': 300, 'lazy_probabilities': 200,
            'with_fixed_factor': 300, 'with_fixed_dispersion': 300, 'fractional_cells': 2000, 'before_inference': 80, 'layers_of_hierarchy': 100, 'special': 40, 'many_samples': 4, 'very_many_samples': 3, 'one_free_member': 30, 'factor_mean_old': 200, 'tall': 20, 'deep': 16}
SPECIAL = ['MAX-AND', 'qL-AND', 'OR-AND-IBP']
TECH = ['point_estimate', 'factor_map', 'factor_mean', 'mc']


def cases(tier, seed):
    out = []
    for r in range(2 if tier == 'quick' else 24):
        for m in ref.EIGHT:
            for K in (2, 3):
                out.append({'model': m, 'K': K, 'seed': [seed, r]})
        for m in SPECIAL:
            out.append({'model': m, 'K': 2, 'seed': [seed, r]})
        for i in range(4):
            out.append({'model': 'hier', 'K': 2 + i % 2, 'seed': [seed, r, i]})
    return out


def tr(o):
    return np.asarray(o.trace) if 'trace' in o.__dict__ else None


def mean(o):
    t = tr(o)
    return t.astype(float).mean(axis=0) if t is not None else np.asarray(o.val, dtype=float)


def expected(lr, tech):
    """list of admissible outputs (before noise and rescaling)"""
    fs = lr.factors
    if lr.model == 'MAX-AND':
        return expected_max(lr, tech)
    if lr.model == 'qL-AND':                    # the current state, whatever the technique
        return [(ref.ql_product(fs[0].val, fs[1].val, lr.q.val) + 1) / 2.]
    model = 'OR-AND' if lr.model == 'OR-AND-IBP' else lr.model
    if tech == 'point_estimate':
        return [(ref.product([f.val for f in fs], model) + 1) / 2.]
    if tech == 'factor_map':
        out = []
        for tie in (-1, 1):
            s = []
            for f in fs:
                m = np.sign(mean(f))
                s.append(np.where(m == 0, tie, m).astype(int))
            out.append((ref.product(s, model) + 1) / 2.)
        return out
    if tech == 'factor_mean':
        return [ref.p_product([(mean(f) + 1) / 2. for f in fs], model)]
    S = max([len(tr(f)) for f in fs if tr(f) is not None], default=1)
    acc = 0.
    for t in range(S):
        acc = acc + (ref.product([tr(f)[t] if tr(f) is not None else f.val for f in fs], model) + 1) / 2.
    return [acc / S]


def expected_max(lr, tech):
    """MAX-AND: cell probabilities, which include the noise"""
    fs, lb = lr.factors, np.asarray(lr.lbda.val, dtype=float)
    if tech == 'point_estimate':
        return [ref.max_and(fs[0].val, fs[1].val, lb)]
    if tech == 'factor_map':
        out = []
        for tie in (-1, 1):
            s = [np.where(mean(f) == 0, tie, np.sign(mean(f))).astype(int) for f in fs]
            out += [ref.max_and(s[0], s[1], lb), ref.max_and(s[0], s[1], mean(lr.lbda))]
        return out
    if tech == 'factor_mean':
        return [ref.max_and_mean((mean(fs[0]) + 1) / 2., (mean(fs[1]) + 1) / 2., mean(lr.lbda))]
    S = max([len(tr(x)) for x in fs + [lr.lbda] if tr(x) is not None], default=1)
    at = lambda x, t: tr(x)[t] if tr(x) is not None else np.asarray(x.val)
    return [np.mean([ref.max_and(at(fs[0], t), at(fs[1], t), at(lr.lbda, t)) for t in range(S)], axis=0)]


def snapshot(m):
    return core.digest(*[x.val for x in m.members] + [np.asarray(l.val, dtype=float) for l in m.lbdas] +
                       [x.trace for x in m.members + m.lbdas if 'trace' in x.__dict__] + [x.fixed_entries for x in m.members])


def judge(obs, rng, m, lr, label, when):
    noiseless = lr.model in ('MAX-AND', 'qL-AND')       # no (further) emission noise is applied
    acc = None if noiseless else float(ref.expit(mean(lr.lbda)))
    tech_order = list(TECH) + (['factor_mean_old'] if lr.model != 'MAX-AND' and lr.factors[0].val.shape[1] < 20 and rng.random() < .2 else [])
    rng.shuffle(tech_order)
    if rng.random() < .5:           # an unknown technique is refused and changes nothing
        bad = str(rng.choice(['Factor-MAP', 'MC', 'factor_median', 'map', '']))
        before = snapshot(m), [ly.model for ly in m.layers]
        try:
            with core.quiet():
                lr.output(technique=bad)
        except Exception:
            obs.count('unknown_refused')
        else:
            obs.fail('unknown', '%s: output(technique=%r) was accepted' % (label, bad))
        obs.ok(before == (snapshot(m), [ly.model for ly in m.layers]), 'unknown', lambda: '%s: refusing technique %r left the layer changed: %s' % (
            label, bad, [ly.model for ly in m.layers]))
    for tech in tech_order:
        base = expected(lr, 'factor_mean' if tech == 'factor_mean_old' else tech)
        combos = [(False, True), (True, True), (False, False), (True, False)]
        for noisy, mapped in [combos[int(k)] for k in rng.permutation(4)]:
            before = snapshot(m)
            what = '%s, %s, output(technique=%r, noisy_emission=%s, map_to_probabilities=%s)' % (label, when, tech, noisy, mapped)
            kw = dict(technique=tech)
            if noisy or rng.random() < .5:
                kw['noisy_emission'] = noisy
            if not mapped or rng.random() < .5:
                kw['map_to_probabilities'] = mapped
            if rng.random() < .3:
                kw['lazy'] = False
            with Api(what):
                o = np.asarray(lr.output(**kw), dtype=float)
            obs.count('outputs')
            obs.count(tech)
            obs.count('noisy', noisy)
            obs.count('rescaled', not mapped)
            es = base
            if noisy and not noiseless:
                es = [e * acc + (1 - e) * (1 - acc) for e in es]
            if not mapped:
                es = [2 * e - 1 for e in es]
            obs.ok(o.shape == lr.child.val.shape, 'shape', '%s: shape %s, data %s' % (what, o.shape, lr.child.val.shape))
            lo = 0 if mapped else -1
            obs.ok(bool(np.all((o >= lo - 1e-9) & (o <= 1 + 1e-9))), 'range', '%s: range %s..%s' % (what, o.min(), o.max()))
            tol = 3e-6 if not isinstance(lr.lbda.val, np.ndarray) else 1e-5
            obs.ok(any(np.allclose(o, e, rtol=0, atol=tol) for e in es), 'value:' + tech, lambda: '%s: %s' % (what, util.diff_at(o, es[0])))
            obs.count('fractional_cells', int(((base[0] > 0) & (base[0] < 1)).sum()))
            obs.ok(snapshot(m) == before, 'purity', what + ' changed states or traces')
            obs.saw(lr.model, tech, noisy, mapped, np.round(es[0], 6).tobytes())
            if mapped and rng.random() < .3:
                with Api('lazy ' + what):
                    again = np.asarray(lr.output(technique=TECH[int(rng.integers(4))], lazy=True), dtype=float)
                obs.ok(np.array_equal(again, o), 'lazy', what + ': the lazy request does not return the previous output')
                obs.count('lazy')
            elif not mapped and rng.random() < .3:      # a lazy request for probabilities after another scale
                with Api('lazy ' + what):
                    again = np.asarray(lr.output(lazy=True), dtype=float)
                obs.ok(np.allclose(again, .5 * (1 + o), rtol=0, atol=1e-6), 'lazy', what + ': a lazy request for probabilities returns something else')
                obs.count('lazy_probabilities')
    obs.count('with_fixed_factor', any(tr(f) is None for f in lr.factors))
    obs.count('with_fixed_dispersion', tr(lr.lbda) is None)


def run(case, obs):
    rng = util.rng_of('c13', case)
    lom = core.load()
    K = case['K']
    for trial in range(9):
        model = case['model']
        special = model in SPECIAL
        ibp = model == 'OR-AND-IBP'
        hier = model == 'hier'
        if hier:
            model = ref.EIGHT[int(rng.integers(8))]
        L = int(rng.choice([1, 2, 3, 4, 6]))
        ds = util.dims(rng, K, 1, 6 if K == 2 else 4)
        if trial == 4 and model not in ('qL-AND', 'OR-AND-IBP'):       # more rows than a byte counts
            ds = [1 if rng.random() < .5 else 2] * K
            ds[int(rng.integers(K))] = int(rng.choice([131, 270, 300]))
            obs.count('tall')
        if trial == 5 and not special and not hier:                     # many latent dimensions
            L = int(rng.choice([130, 260]))
            obs.count('deep')
        X = util.data(rng, ds, .5, rng.choice([0, .2]))
        label = '%s %dD %s L=%d' % (case['model'], K, list(ds), L)
        with Api('building ' + label):
            m = lom.Machine()
            d = m.add_matrix(X, fixed=True)
            lr = m.add_layer(latent_size=L, child=d, model=model)
            layers = [lr]
            if hier:
                layers.append(m.add_layer(latent_size=2, child=lr.factors[int(rng.integers(K))], model=ref.EIGHT[int(rng.integers(8))]))
        if not hier and rng.random() < .4:
            judge(obs, rng, m, lr, label, 'before inference')
            obs.count('before_inference')
        for rep in range(1 + int(rng.random() < .5)):
            for ly in layers:
                for f in ly.factors:
                    f.fixed = bool(rng.random() < .2) and not ibp
                    if rng.random() < .3 and not ibp:
                        f.fixed_entries = (rng.random(f.val.shape) < .5).astype(np.int8)
                ly.lbda.fixed = bool(rng.random() < .3)
                if ly.lbda.fixed and model == 'MAX-AND':
                    v = rng.uniform(.3, .97, L + 1)
                    v[-1] = rng.uniform(.01, .3)
                    if L > 1 and rng.random() < .4:
                        v[1] = v[0]
                    ly.lbda.val = v
                elif ly.lbda.fixed:
                    ly.lbda.val = float(rng.choice([0., .3, 2.5, 9.]))
            if not hier and not ibp and rng.random() < .25:     # a single free member
                free = int(rng.integers(K + 1))
                for k, f in enumerate(lr.factors):
                    f.fixed = k != free
                if model == 'qL-AND':
                    lr.q.fixed = True
                lr.lbda.fixed = free < K
                obs.count('one_free_member')
            S = int(rng.choice([1, 2, 3, 4, 7]))
            if trial == 1 and rep == 0 and not hier and model != 'qL-AND' and max(ds) * L <= 24 and rng.random() < .5:
                S = int(rng.choice([520, 600, 1100]))
                obs.count('very_many_samples')
            if trial == 0 and not hier and model != 'qL-AND' and rng.random() < .35:
                S = int(rng.choice([140, 300]))         # more samples than an int8 counts
                obs.count('many_samples')
            with Api('infer ' + label):
                m.infer(burn_in_min=int(rng.integers(2)), burn_in_max=int(rng.integers(3)), no_samples=S, convergence_window=3)
            for i, ly in enumerate(layers):
                judge(obs, rng, m, ly, label + (' layer %d' % i if hier else ''), 'after inference with %d samples' % S)
                obs.count('layers_of_hierarchy', hier)
            obs.count('special', special)
            if rng.random() < .3 and not ibp:
                # the state moves on after the samples have been recorded
                for f in lr.factors:
                    f.val = util.pm(rng, f.val.shape)
                if not lr.lbda.fixed:
                    lr.lbda.val = rng.uniform(.1, .9, L + 1) if model == 'MAX-AND' else float(rng.choice([.7, 3.]))
                judge(obs, rng, m, lr, label, 'with a state that differs from the last sample')
    obs.sample = {'model': case['model'], 'shape': list(ds), 'L': L, 'samples': S,
                  'fixed_factors': [bool(f.fixed) for f in lr.factors], 'factor_mean_first_cell': float(expected(lr, 'factor_mean')[0].flat[0])}
