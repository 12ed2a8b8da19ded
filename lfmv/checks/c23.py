import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.tap import Tap
from lfmv.checks import c13

PROPERTY = 'C23'
RULE = ('one case = a batch of random machines assembled from any supported parts (one to three data sets side by side, stacked layers, a second '
        'parent, 2D/3D, eight logical models, MAX-AND, qL-AND, growing models, free data, masks, priors, fixed members, annealing, cleaning, '
        'resetting). "fit": repeated inferences under a tap that digests all other members around every update, followed by every output. '
        '"local": single real updates are executed twice with the same random numbers, once with everything outside the Markov '
        'blanket replaced. "refuse": unsupported combinations. Distinct non-trivial = distinct (machine, states).')
REQUIRED = {'machines': 250, 'updates': 6000, 'outputs': 2000, 'dispersions': 400, 'mixed_machines': 60, 'stacked': 80, 'two_parents': 20, 'growing': 30,
            'cleaned_or_reset': 40, 'annealed': 20, 'repeated': 200, 'local_updates': 800, 'replaced_members': 2000, 'blanket_matters': 200, 'refused': 36,
            'removed_dimensions': 20}
SPECIAL = ['MAX-AND', 'qL-AND', 'OR-AND-IBP']


def cases(tier, seed):
    out = []
    for r in range(16 if tier == 'quick' else 200):
        out.append({'kind': 'fit', 'seed': [seed, r]})
        out.append({'kind': 'local', 'seed': [seed, r]})
    for r in range(2 if tier == 'quick' else 10):
        out.append({'kind': 'refuse', 'seed': [seed, r]})
    return out


def assemble(rng, obs, special=True, n=None):
    """random machine; returns machine, layers, description"""
    lom = core.load()
    m = lom.Machine()
    desc, layers = [], []
    for t in range(n or int(rng.choice([1, 1, 2, 2, 3]))):
        three = rng.random() < .25
        shape = util.dims(rng, 3 if three else 2, 1, 4 if three else 6)
        free = rng.random() < .2 and not three
        X = util.data(rng, shape, .5, 0 if free else rng.choice([0, .3]))
        model = str(rng.choice(SPECIAL)) if special and not three and not free and rng.random() < .35 else str(rng.choice(ref.EIGHT))
        d = m.add_matrix(X, fixed=not free)
        lr = m.add_layer(latent_size=int(rng.choice([1, 2, 3, 5])), child=d, model=model)
        layers.append(lr)
        desc.append('%s %s%s L=%d' % (model, list(shape), ' free' if free else '', lr.size))
        if free and rng.random() < .5:
            top = m.add_layer(latent_size=2, child=d, model=str(rng.choice(ref.EIGHT)))
            layers.append(top)
            desc.append('second parent of the data ' + top.model)
            obs.count('two_parents')
        if model not in SPECIAL and rng.random() < .6:
            k = int(rng.integers(len(lr.factors)))
            l1 = m.add_layer(latent_size=int(rng.choice([1, 2, 3])), child=lr.factors[k], model=str(rng.choice(ref.EIGHT)))
            layers.append(l1)
            desc.append('on factor %d: %s L=%d' % (k, l1.model, l1.size))
            if rng.random() < .3:
                l2 = m.add_layer(latent_size=2, child=l1.factors[int(rng.integers(2))], model=str(rng.choice(ref.EIGHT)))
                layers.append(l2)
                desc.append('above that: ' + l2.model)
            if rng.random() < .3 and not three:
                l2 = m.add_layer(latent_size=2, child=lr.factors[k], model=str(rng.choice(ref.EIGHT)))
                layers.append(l2)
                desc.append('second parent of factor %d: %s' % (k, l2.model))
                obs.count('two_parents')
            obs.count('stacked')
    obs.count('mixed_machines', len(set(l.model for l in layers if l.child.layer is None)) > 1)
    obs.count('growing', any(l.model == 'OR-AND-IBP' for l in layers))
    return m, layers, '; '.join(desc)


def dress(rng, m, layers, fix=True):
    """priors, masks, fixed members, dispersions"""
    for ly in layers:
        ibp = ly.model == 'OR-AND-IBP'
        for f in ly.factors:
            f.fixed = bool(fix and not ibp and rng.random() < .12)
            if not ibp:
                f.fixed_entries = (rng.random(f.val.shape) < rng.choice([0, 0, .3])).astype(np.int8)
            if ly.model in ref.EIGHT:
                f.bernoulli_prior = float(rng.choice([.5, .5, .2, .9]))
        ly.lbda.fixed = bool(fix and rng.random() < .15)
        if ly.model != 'MAX-AND':
            ly.lbda.val = float(rng.choice([.05, .7, 2.5]))
            if ly.model in ref.EIGHT:
                ly.lbda.beta_prior = [(1, 1), (1, 1), (3, 1.5), (1, 6)][int(rng.integers(4))]


def everything(m):
    """matrices of a machine, collected from its layers and not from its own list"""
    out = []
    for l in m.layers:
        out += [l.child] + list(l.factors) + ([l.q] if l.model == 'qL-AND' else [])
    out += list(m.members)
    return [x for i, x in enumerate(out) if all(x is not y for y in out[:i])]


def parts(m):
    return everything(m) + [l.lbda for l in m.layers]


def state(x):
    return core.digest(np.asarray(x.val), np.asarray(x.fixed_entries) if hasattr(x, 'fixed_entries') else 0, int(bool(x.fixed)))


def own(x):
    """members an update of x may change: itself, for growing models both factors"""
    lr = getattr(x, 'layer', None)
    if lr is not None and lr.model == 'OR-AND-IBP' and any(x is f for f in lr.factors):
        return [id(f) for f in lr.factors]
    return [id(x)]


def valid(obs, m, layers, what):
    for x in everything(m):
        v = np.asarray(x.val)
        q = x.layer is not None and getattr(x.layer, 'q', None) is x
        dom = bool(((v >= 1) & (v <= 5)).all()) if q else bool((np.abs(v) <= 1).all()) and (bool((v != 0).all()) or x.fixed)
        obs.ok(dom and v.dtype == np.int8, 'domain', lambda: '%s: member has type %s and values %s' % (what, v.dtype, np.unique(v)))
        obs.ok(x.fixed_entries.shape == v.shape, 'shape', '%s: mask of shape %s for a matrix of shape %s' % (what, x.fixed_entries.shape, v.shape))
    for l in layers:
        L = [f.val.shape[1] for f in l.factors]
        obs.ok(len(set(L)) == 1 and [f.val.shape[0] for f in l.factors] == list(l.child.val.shape), 'shape',
               lambda: '%s: factors %s of a layer whose child is %s' % (what, [f.val.shape for f in l.factors], l.child.val.shape))
        v = np.asarray(l.lbda.val, dtype=float)
        if l.model == 'MAX-AND':
            obs.ok(v.shape == (L[0] + 1,) and bool(((v >= 0) & (v <= 1)).all()), 'dispersion', '%s: MAX-AND dispersions %s for %d dimensions' % (what, v, L[0]))
        else:
            obs.ok(v.shape == () and bool(np.isfinite(v)) and v >= 0, 'dispersion', '%s: dispersion %r' % (what, l.lbda.val))


def fit(case, obs, rng):
    for trial in range(20):
        with Api('building'):
            m, layers, desc = assemble(rng, obs)
        for l in layers:
            if l.model == 'OR-AND-IBP':
                l.alpha = float(rng.choice([.5, 1, 3]))
            if l.model != 'OR-AND-IBP' and rng.random() < .25:
                setattr(l, ['auto_clean', 'auto_reset'][int(rng.integers(2))], True)
                obs.count('cleaned_or_reset')
        obs.count('machines')
        for rep in range(2):
            dress(rng, m, layers)
            obs.count('repeated', rep)
            auto = any(l.auto_clean or l.auto_reset for l in layers)
            m.anneal = bool(rng.random() < .15 and not any(l.model == 'MAX-AND' for l in layers))
            obs.count('annealed', m.anneal)
            S = int(rng.choice([1, 2, 3, 5]))
            kw = dict(no_samples=S, burn_in_min=int(rng.integers(0, 5)), burn_in_max=int(rng.integers(0, 16)), print_step=int(rng.integers(1, 5)),
                      convergence_window=int(rng.choice([2, 3, 5])), convergence_eps=float(rng.choice([1e-3, .1, 1.])))
            what = '[%s] inference %d %s%s' % (desc, rep + 1, kw, ' annealed' if m.anneal else '')
            objs = parts(m)
            free = [o for o in objs if not o.fixed]
            last, done = {}, {}

            def before(kind, x):
                last['s'] = [(o, state(o)) for o in objs if id(o) not in own(x)]

            def after(kind, x):
                obs.count('updates')
                done[id(x)] = done.get(id(x), 0) + 1
                for o, s in last['s']:
                    obs.ok(state(o) == s, 'bystander', lambda: '%s: an update of one member (%s) changed another (%s)' % (
                        what, np.shape(x.val), np.shape(o.val)))
            tap = Tap(m, before, after, limit=20000).install()
            sizes = sum(l.size for l in layers if l.model != 'OR-AND-IBP')
            with Api(what):
                m.infer(**kw)
            tap.remove()
            lazy = [o for o in free if done.get(id(o), 0) < S]
            obs.ok(not lazy, 'not_updated', lambda: '%s: a free member of shape %s (%s) was updated %d times for %d samples' % (
                what, np.shape(lazy[0].val), lazy[0].layer.model if getattr(lazy[0], 'layer', None) else 'data', done.get(id(lazy[0]), 0), S))
            if auto:
                obs.count('removed_dimensions', sizes - sum(l.size for l in layers if l.model != 'OR-AND-IBP'))
            valid(obs, m, layers, what)
            grow = any(l.model == 'OR-AND-IBP' for l in layers)
            for x in everything(m):
                if x.fixed:
                    continue
                t = np.asarray(x.trace)
                ibp = x.layer is not None and x.layer.model == 'OR-AND-IBP'
                obs.ok(t.shape[0] == S and (t.shape[1:] == x.val.shape or (ibp and t.shape[1] == x.val.shape[0] and t.shape[2] >= x.val.shape[1])), 'trace',
                       lambda: '%s: trace of shape %s for a matrix of shape %s' % (what, t.shape, x.val.shape))
                s = tuple(slice(0, k) for k in x.val.shape)
                obs.ok(np.array_equal(t[-1][s], x.val) and (not ibp or bool((t[-1][:, x.val.shape[1]:] == -1).all())), 'trace',
                       what + ': the last sample is not the current state')
            for l in layers:
                if l.lbda.fixed:
                    continue
                obs.ok(len(l.lbda.trace) == S, 'trace', what + ': length of dispersion trace')
                fs = [f.val for f in l.factors]
                if l.model == 'MAX-AND':
                    good, e = ref.max_and_dispersions(l.child.val, fs[0], fs[1], np.asarray(l.lbda.val, dtype=float))
                    obs.ok(good is not False, 'dispersion', lambda: '%s: dispersions %s of %s, expected e.g. %s' % (what, l.lbda.val, l.model, e))
                else:
                    Y = ref.ql_product(fs[0], fs[1], l.q.val) if l.model == 'qL-AND' else ref.product(fs, 'OR-AND' if l.model == 'OR-AND-IBP' else l.model)
                    e = ref.dispersion(l.child.val, Y, l.lbda.beta_prior)
                    obs.ok(abs(float(l.lbda.val) - e) <= 1e-7 * (1 + e), 'dispersion', '%s: dispersion of %s is %.9g, expected %.9g' % (what, l.model, l.lbda.val, e))
                obs.count('dispersions')
            for l in layers:
                for tech in c13.TECH:
                    w = '%s: output(%r) of %s' % (what, tech, l.model)
                    with Api(w):
                        o = np.asarray(l.output(technique=tech), dtype=float)
                    obs.ok(o.shape == l.child.val.shape and bool(((o >= -1e-9) & (o <= 1 + 1e-9)).all()), 'output', w + ': not a matrix of probabilities')
                    if l.model != 'OR-AND-IBP' or tech == 'point_estimate':
                        es = c13.expected(l, tech)
                        obs.ok(any(np.allclose(o, e, rtol=0, atol=1e-5) for e in es), 'output', lambda: '%s: %s' % (w, util.diff_at(o, es[0])))
                    obs.count('outputs')
            obs.saw(desc, core.digest(*[x.val for x in m.members]))
    obs.sample = {'machine': desc, 'settings': kw, 'members': len(objs), 'grows': bool(grow)}


def blanket(m, x):
    """ids of everything the update of x may depend on"""
    keep = {id(x)}
    lr = x.layer if hasattr(x, 'layer') else None
    if lr is not None:                                   # factors, thresholds and dispersions
        keep |= {id(f) for f in lr.factors} | {id(lr.child), id(lr.lbda)}
        if getattr(lr, 'q', None) is not None:
            keep.add(id(lr.q))
    for p in getattr(x, 'parents', []):
        keep |= {id(f) for f in p.factors} | {id(p.lbda)}
    return keep


def save(m):
    return [(x, np.array(x.val) if np.ndim(x.val) else x.val, np.array(x.fixed_entries) if hasattr(x, 'fixed_entries') else None,
             getattr(x, 'bernoulli_prior', None), getattr(x, 'beta_prior', None), x.fixed) for x in parts(m)]


def restore(s):
    for x, v, fe, bp, be, fx in s:
        x.val = np.array(v) if np.ndim(v) else v
        x.fixed = fx
        if fe is not None:
            x.fixed_entries = np.array(fe)
            x.bernoulli_prior = bp
        else:
            x.beta_prior = be


def scramble(rng, x):
    q = getattr(getattr(x, 'layer', None), 'q', None)
    if hasattr(x, 'fixed_entries'):
        if x is q:
            x.val = rng.integers(1, 6, size=x.val.shape).astype(np.int8)
        else:
            x.val = (util.pm(rng, x.val.shape) if not (x.val == 0).any() else util.data(rng, x.val.shape, .5, .2))
        x.fixed_entries = (rng.random(x.val.shape) < .5).astype(np.int8)
        x.bernoulli_prior = float(rng.choice([.01, .3, .99]))
    else:
        if np.ndim(x.val):
            x.val = rng.uniform(.2, .9, np.shape(x.val))
        else:
            x.val = float(rng.uniform(0, 6))
        x.beta_prior = (float(rng.uniform(.5, 20)), float(rng.uniform(.5, 20)))
    x.fixed = bool(rng.random() < .5)


def local(case, obs, rng):
    for trial in range(14):
        with Api('building'):
            m, layers, desc = assemble(rng, obs, n=int(rng.choice([2, 2, 3])))
        for l in layers:
            if l.model == 'OR-AND-IBP':
                l.alpha = 1.
        dress(rng, m, layers, fix=False)
        tap = Tap(m).install()          # fetches the real update functions
        if rng.random() < .5:
            with Api('infer'):
                util.sweeps(m, 1)
        objs = parts(m)
        free = [x for x in objs if not x.fixed]
        for x in [free[int(k)] for k in rng.permutation(len(free))[:6]]:
            s0 = save(m)
            seed = int(rng.integers(1 << 31))
            with Api('an update in [%s]' % desc):
                np.random.seed(seed)
                x.sampling_fct(x)
            a = [np.array(o.val) for o in objs if id(o) in own(x)]
            restore(s0)
            keep = blanket(m, x)
            others = [o for o in objs if id(o) not in keep]
            # of the relatives, masks, priors and the other hyperparameters do not matter either
            ibp = getattr(x, 'layer', None) is not None and x.layer.model == 'OR-AND-IBP'
            for o in others:
                scramble(rng, o)
            for o in objs:
                if id(o) in keep and o is not x:
                    if hasattr(o, 'fixed_entries') and not ibp:
                        o.fixed_entries = (rng.random(o.val.shape) < .5).astype(np.int8)
                        o.bernoulli_prior = .77
                    elif not hasattr(o, 'fixed_entries'):
                        o.beta_prior = (2, 9)
                    if not ibp:
                        o.fixed = bool(rng.random() < .5)
            with Api('an update in [%s], other members replaced' % desc):
                np.random.seed(seed)
                x.sampling_fct(x)
            b = [np.array(o.val) for o in objs if id(o) in own(x)]
            obs.ok(len(a) == len(b) and all(np.array_equal(u, v) for u, v in zip(a, b)), 'locality',
                   lambda: '[%s]: the update of a member of shape %s (%s) depends on members that are not its relatives' % (
                       desc, np.shape(x.val), x.layer.model if getattr(x, 'layer', None) else 'data'))
            obs.count('local_updates')
            obs.count('replaced_members', len(others))
            obs.saw(desc, core.digest(*a))
            restore(s0)
            # positive control: relatives matter
            for o in objs:
                if id(o) in keep and o is not x and not (ibp and hasattr(o, 'fixed_entries') and o.layer is x.layer):
                    fx = o.fixed
                    scramble(rng, o)
                    o.fixed = fx
            with Api('an update in [%s], relatives replaced' % desc):
                np.random.seed(seed)
                x.sampling_fct(x)
            obs.count('blanket_matters', not all(np.array_equal(u, np.asarray(o.val)) for u, o in zip(a, [o for o in objs if id(o) in own(x)])))
            restore(s0)
        tap.remove()
    obs.sample = {'machine': desc, 'free_members': len(free)}


def refuse(case, obs, rng):
    """combinations without an implementation are refused before anything is changed, in the first and in any later inference"""
    import pdb
    stops = []
    real = pdb.set_trace
    pdb.set_trace = lambda *a, **k: stops.append(1)
    try:
        for trial in range(6):
            for kind in ('special_above', 'above_special', 'third_parent', 'tensor_child', 'tensor_two_parents', 'lone'):
                three = kind.startswith('tensor')
                lom = core.load()
                with Api('building'):
                    m = lom.Machine()
                    d = m.add_matrix(util.pm(rng, util.dims(rng, 3 if three else 2, 2, 4)), fixed=kind != 'tensor_child')
                    lr = m.add_layer(latent_size=2, child=d, model=SPECIAL[trial % 3] if kind == 'above_special' else str(rng.choice(ref.EIGHT)))
                    late = rng.random() < .5 and kind != 'tensor_child'
                    if late:
                        util.sweeps(m, 1)
                f = lr.factors[int(rng.integers(len(lr.factors)))]
                if kind in ('special_above', 'third_parent') and rng.random() < .4:      # on free data
                    d.fixed = False
                    f, kind = d, kind + '_data'
                more = {'special_above': [SPECIAL[trial % 3]], 'above_special': [str(rng.choice(ref.EIGHT))],
                        'third_parent': [str(k) for k in rng.choice(ref.EIGHT, 3)],
                        'tensor_two_parents': [str(k) for k in rng.choice(ref.EIGHT, 2)]}.get(kind.replace('_data', ''), [])
                err, keep = None, None
                try:
                    with core.quiet():
                        if kind == 'lone':
                            m.add_matrix(util.pm(rng, (3, 2)), fixed=False)
                        for model in more:
                            m.add_layer(latent_size=2, child=f, model=model)
                        keep = [state(x) for x in parts(m)]
                        util.sweeps(m, 2)
                except Exception as e:
                    err = e
                what = '%s%s' % (kind, ' after an inference' if late else '')
                obs.ok(err is not None, 'accepted', what + ': inference ran although there is no such model')
                obs.ok(not stops, 'debugger', what + ': stopped in a debugger')
                obs.ok(keep in (None, [state(x) for x in parts(m)]), 'state', what + ': refused, but states were changed')
                obs.count('refused')
                obs.saw('refuse', what, str(err)[:40])
    finally:
        pdb.set_trace = real
    obs.sample = {'kind': kind, 'late': bool(late), 'error': repr(err)[:80]}


def run(case, obs):
    rng = util.rng_of('c23', case)
    {'fit': fit, 'local': local, 'refuse': refuse}[case['kind']](case, obs, rng)
