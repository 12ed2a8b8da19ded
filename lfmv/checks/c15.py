import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.tap import Tap

PROPERTY = 'C15'
RULE = ('one case = model (eight logical 2D/3D, MAX-AND). Layers with planted inactive, duplicate (adjacent, chained, in one or all '
        'factors) and healthy dimensions, masks and dispersions are cleaned or reset directly, and within inference (every internal '
        'clean-up call is intercepted); columns are identified by content, mask and dispersion and compared before/after. '
        'Distinct non-trivial = distinct (model, action, factors, masks) with at least one useless dimension.')
REQUIRED = {'cleaned': 500, 'reset': 500, 'removed_dimensions': 500, 'kept_dimensions': 500, 'nothing_to_do': 40, 'adjacent_useless': 100,
            'with_mask': 300, 'infer_clean': 60, 'infer_reset': 60, 'max_and': 60, 'deep': 60, 'tall': 60, 'single_row': 60, 'clean_starts': 60, 'clean_starts_side': 40, 'clean_starts_converged': 15,
            'hierarchies': 60, 'matrices_above': 60, 'layers_above_after_inference': 40}


def cases(tier, seed):
    out = []
    for r in range(2 if tier == 'quick' else 30):
        for m in ref.EIGHT:
            for K in (2, 3):
                out.append({'model': m, 'K': K, 'seed': [seed, r]})
        for i in range(4):
            out.append({'model': 'MAX-AND', 'K': 2, 'seed': [seed, r, i]})
    return out


def useless(fs):
    """(inactive dimensions, pairs sharing a column in some factor)"""
    L = fs[0].shape[1]
    ina = {l for l in range(L) if any((f[:, l] == -1).all() for f in fs)}
    dup = {(a, b) for a in range(L) for b in range(a + 1, L) if any(np.array_equal(f[:, a], f[:, b]) for f in fs)}
    return ina, dup


def attached(lr):
    """matrices of the layers above that have one row per latent dimension of lr"""
    out = []
    stack = [(f, 1) for f in lr.factors]
    while stack:
        mat, ax = stack.pop(0)
        for p in mat.parents:
            out.append(p.factors[ax])
            stack.append((p.factors[ax], 0))
    return out


def bystanders(m, lr):
    """everything that has nothing to do with the latent dimensions of lr"""
    own = {id(f) for f in lr.factors + attached(lr)}
    return [(x, np.array(x.val), np.array(x.fixed_entries)) for x in m.members if id(x) not in own]


def check_bystanders(obs, kept, what):
    for x, v, f in kept:
        obs.ok(np.array_equal(x.val, v) and np.array_equal(x.fixed_entries, f), 'bystander', what + ': an unrelated matrix or its mask changed')


def state(lr):
    return ([np.array(f.val) for f in lr.factors], [np.array(f.fixed_entries) for f in lr.factors], np.array(lr.lbda.val, dtype=float),
            [(np.array(g.val), np.array(g.fixed_entries)) for g in attached(lr)])


def signatures(st, vector):
    fs, ms, lb, up = st
    return [(tuple(f[:, l].tobytes() for f in fs), tuple(m[:, l].tobytes() for m in ms), float(lb[l]) if vector else 0.,
             tuple((v[l].tobytes(), m[l].tobytes()) for v, m in up)) for l in range(fs[0].shape[1])]


def add_above(rng, m, lr):
    """layers above: one or two on a factor (2D layers), possibly one more on top of those; returns their number"""
    n = 0
    for f in lr.factors:
        for _ in range(int(rng.choice([0, 1, 1, 2] if lr.dimensionality == 2 else [0, 1]))):
            p = m.add_layer(latent_size=int(rng.choice([1, 2, 3, 3, 9, 16])), child=f, model=ref.EIGHT[int(rng.integers(8))])
            n += 1
            if rng.random() < .4:
                m.add_layer(latent_size=2, child=p.factors[int(rng.integers(2))], model=ref.EIGHT[int(rng.integers(8))])
                n += 1
    for x in m.members:
        if x is not lr.child and not x.fixed:
            x.fixed_entries = (rng.random(x.val.shape) < .2).astype(np.int8)
    return n


def check_clean(obs, lr, before, ret, what):
    vector = lr.model == 'MAX-AND'
    fs, ms, lb, up = before
    after = state(lr)
    L0, L1 = fs[0].shape[1], after[0][0].shape[1]
    obs.ok(all(f.shape == (g.shape[0], L1) for f, g in zip(after[0], fs)), 'shapes', lambda: '%s: factor shapes %s' % (what, [f.shape for f in after[0]]))
    obs.ok(all(m.shape == f.shape for f, m in zip(after[0], after[1])), 'masks', lambda: '%s: factor/mask shapes %s' % (what, [(f.shape, m.shape) for f, m in zip(after[0], after[1])]))
    obs.ok(all(f.dtype == np.int8 for f in after[0]), 'type', what + ': factor type changed')
    obs.ok(all(v.shape == m.shape == (L1, u[0].shape[1]) for (v, m), u in zip(after[3], up)), 'above',
           lambda: '%s: %d dimensions remain, factors of the layers above have shapes %s' % (what, L1, [v.shape for v, m in after[3]]))
    obs.count('matrices_above', len(up) if L1 < L0 else 0)
    obs.ok(lr.size == L1, 'shapes', what + ': layer size')
    if vector:
        obs.ok(after[2].shape == (L1 + 1,), 'dispersion', lambda: '%s: %d dispersions for %d dimensions' % (what, len(after[2]), L1))
        obs.ok(after[2][-1] == lb[-1], 'dispersion', what + ': clamped dispersion changed')
    else:
        obs.ok(np.array_equal(after[2], lb), 'dispersion', what + ': dispersion changed')
    s0, s1 = signatures(before, vector), signatures(after, vector)
    kept = []
    i = 0
    for s in s1:
        while i < L0 and s0[i] != s:
            i += 1
        obs.ok(i < L0, 'contents', lambda: '%s: the remaining dimensions are not, in order, dimensions of before (factor columns, mask columns, rows of layers above%s)' % (
            what, ', dispersions' if vector else ''))
        kept.append(i)
        i += 1
    ina, dup = useless(after[0]) if L1 else (set(), set())
    obs.ok(not ina, 'inactive_left', lambda: '%s: dimensions %s are still inactive' % (what, ina))
    obs.ok(not dup, 'duplicate_left', lambda: '%s: dimensions %s still share a column' % (what, sorted(dup)))
    ina0, dup0 = useless(fs)
    for l in range(L0):
        if l not in kept:
            good = l in ina0 or any((min(l, k), max(l, k)) in dup0 for k in kept)
            obs.ok(good, 'removed_useful', lambda: '%s: dimension %d was removed although it is active and differs from all kept ones' % (what, l))
    obs.ok(bool(ret) == (L1 < L0), 'return', '%s: returned %r after removing %d dimensions' % (what, ret, L0 - L1))
    obs.count('removed_dimensions', L0 - L1)
    obs.count('kept_dimensions', L1)
    obs.count('nothing_to_do', L0 == L1)
    obs.count('cleaned')
    obs.count('max_and', vector)


def check_reset(obs, lr, before, ret, what):
    fs, ms, lb, up = before
    after = state(lr)
    L = fs[0].shape[1]
    obs.ok(all(a.shape == b.shape and a.dtype == b.dtype for a, b in zip(after[0], fs)), 'shapes', what + ': shapes or types changed')
    obs.ok(all(np.array_equal(a, b) for a, b in zip(after[1], ms)), 'masks', what + ': masks changed')
    obs.ok(np.array_equal(after[2], lb), 'dispersion', what + ': dispersions changed')
    obs.ok(all(np.array_equal(v, u[0]) and np.array_equal(m, u[1]) for (v, m), u in zip(after[3], up)), 'above', what + ': layers above changed')
    free = [(m == 0) & (not bool(f.fixed)) for f, m in zip(lr.factors, ms)]
    ina, dup = useless(fs)
    off = {l for l in range(L) if all((a[:, l][fr[:, l]] == -1).all() for a, fr in zip(after[0], free))}
    for i, (a, b, fr) in enumerate(zip(after[0], fs, free)):
        obs.ok(np.array_equal(a[~fr], b[~fr]), 'fixed', '%s: fixed entries of factor %d changed' % (what, i))
    changed = {l for l in range(L) if any(not np.array_equal(a[:, l], b[:, l]) for a, b in zip(after[0], fs))}
    pinned = any(not fr.all() for fr in free)
    # pinned entries survive a reset: a dimension may then come to share a column with a reset one
    mixed = {l for l in range(L) for k in range(L) if k != l and any(np.array_equal(a[:, k], b[:, l]) for a, b in zip(after[0], fs))}
    bad = {l for l in changed if l not in ina and not any(l in p for p in dup) and not (pinned and l in mixed)}
    obs.ok(not bad, 'reset_useful', lambda: '%s: dimensions %s were changed although they are active and distinct' % (what, bad))
    obs.ok(changed <= off, 'partial', lambda: '%s: dimensions %s were changed but not switched off' % (what, changed - off))
    obs.ok(ina <= off, 'inactive_left', lambda: '%s: dimensions %s are inactive in a factor but not switched off' % (what, ina - off))
    left = [p for p in dup if not (set(p) & off)]
    obs.ok(not left, 'duplicate_left', lambda: '%s: dimensions %s share a column and none is switched off' % (what, left))
    # of dimensions that only duplicate each other one stays
    for l in () if pinned else changed - ina:
        partners = {k for p in dup if l in p for k in p} - {l}
        obs.ok(bool(partners - changed), 'all_duplicates_off',
               lambda: '%s: dimension %d and all its duplicates %s were switched off' % (what, l, partners))
    if changed:
        obs.ok(bool(ret), 'return', '%s: returned %r although dimensions %s were reset' % (what, ret, changed))
    if not ina and not dup:
        obs.ok(not ret, 'return', '%s: returned %r although there was nothing to do' % (what, ret))
        obs.count('nothing_to_do')
    obs.count('reset')
    obs.count('max_and', lr.model == 'MAX-AND')


def plant(rng, lr):
    L = lr.size
    fs = [util.pm(rng, f.val.shape, rng.choice([.4, .6, .9])) for f in lr.factors]
    for _ in range(int(rng.integers(0, 4))):
        k = int(rng.integers(4))
        l = int(rng.integers(L))
        if k == 0:
            fs[int(rng.integers(len(fs)))][:, l] = -1
        elif k == 1:
            for f in fs:
                f[:, l] = -1
        elif k == 2:            # duplicate in one factor
            f = fs[int(rng.integers(len(fs)))]
            f[:, int(rng.integers(L))] = f[:, l]
        else:                   # duplicate in all factors
            b = int(rng.integers(L))
            for f in fs:
                f[:, b] = f[:, l]
    if rng.random() < .3 and L > 2:     # runs of adjacent useless dimensions
        a = int(rng.integers(L - 1))
        fs[0][:, a:a + 3] = -1
    if rng.random() < .2 and L > 2:
        a = int(rng.integers(L - 1))
        for f in fs:
            f[:, a:] = f[:, a:a + 1]
    for f, v in zip(lr.factors, fs):
        f.val = v


def run(case, obs):
    rng = util.rng_of('c15', case)
    lom = core.load()
    import lom.auxiliary_functions as aux
    model, K = case['model'], case['K']
    real = aux.clean_up_codes
    for trial in range(30):
        L = int(rng.choice([1, 2, 3, 4, 6, 8]))
        ds = util.dims(rng, K, 2, 8 if K == 2 else 5)
        if trial in (10, 11):       # more latent dimensions than a byte counts
            L = int(rng.choice([129, 140, 270]))
            ds = util.dims(rng, K, 16, 24)
            obs.count('deep')
        if trial in (12, 13):       # many rows: columns that differ in one late entry only
            ds = util.dims(rng, K, 2, 3)
            ds = tuple(int(rng.choice([270, 1100])) if k == 0 else n for k, n in enumerate(rng.permutation(ds)))
            obs.count('tall')
        if trial in (14, 15):       # a single row: all dimensions that are on in it share that column
            ds = tuple(1 if k == 0 else n for k, n in enumerate(ds))
            ds = tuple(int(x) for x in rng.permutation(ds))
            obs.count('single_row')
        X = util.data(rng, ds, .5, .1)
        with Api('building'):
            m = lom.Machine()
            d = m.add_matrix(X, fixed=True)
            lr = m.add_layer(latent_size=L, child=d, model=model)
            if trial >= 22 and model in ref.EIGHT:
                obs.count('hierarchies', add_above(rng, m, lr) > 0)
        plant(rng, lr)
        if trial in (12, 13) and L > 1:
            for f in lr.factors:
                a, b = rng.permutation(L)[:2]
                v = f.val.copy()
                v[:, a] = v[:, b]
                r = int(rng.integers(len(v)))
                v[r, a] = -v[r, a]
                if rng.random() < .3:
                    v[:, b] = -1
                    v[r, b] = 1
                f.val = v
        if model == 'MAX-AND':
            lr.lbda.val = np.append(rng.permutation(np.linspace(.4, .9, L)), .05)
            lr.lbda.fixed = bool(rng.random() < .4)
        for f in lr.factors:
            if rng.random() < .5:
                f.fixed_entries = (rng.random(f.val.shape) < rng.choice([.2, .6])).astype(np.int8)
                obs.count('with_mask')
        reset = bool(trial % 2)
        what = '%s %dD %s L=%d %s' % (model, K, list(ds), L, 'reset' if reset else 'clean')
        before = state(lr)
        ina, dup = useless(before[0])
        obs.count('adjacent_useless', any(l + 1 in ina for l in ina) or any(b == a + 1 for a, b in dup))
        if reset and rng.random() < .3:
            lr.factors[int(rng.integers(K))].fixed = [True, True, np.bool_(True), 1][int(rng.integers(4))]
        others = bystanders(m, lr)
        with Api('clean_up_codes, ' + what):
            ret = real(lr, reset=reset, clean=not reset)
        check_bystanders(obs, others, what)
        if ina or dup:
            obs.saw(model, reset, core.digest(*before[0]), core.digest(*before[1]))
        (check_reset if reset else check_clean)(obs, lr, before, ret, what)
        obs.ok(np.array_equal(d(), X), 'data', what + ': data changed')
        if not reset and lr.size:
            with Api('second clean-up, ' + what):
                before = state(lr)
                ret = real(lr, reset=False, clean=True)
            check_clean(obs, lr, before, ret, what + ' (again)')
    # within inference
    for trial in range(8 if model in ref.EIGHT else 6):
        infer(case, obs, rng, lom, aux, real, trial)
    obs.sample = {'model': model, 'K': K, 'last': what, 'inactive': sorted(ina), 'sharing_a_column': [list(p) for p in sorted(dup)][:6], 'size_after': lr.size}


def infer(case, obs, rng, lom, aux, real, trial):
    model, K = case['model'], case['K']
    L = int(rng.choice([2, 4, 6]))
    ds = util.dims(rng, K, 3, 7 if K == 2 else 4)
    X = util.data(rng, ds, rng.choice([.1, .5, .9]), .1)
    with Api('building'):
        m = lom.Machine()
        d = m.add_matrix(X, fixed=True)
        lr = m.add_layer(latent_size=L, child=d, model=model)
        above = add_above(rng, m, lr) if trial > 5 else 0
        side = []           # further data sets with layers of their own, before and after the layer
        for _ in range(int(rng.integers(1, 3)) if trial in (2, 3, 4, 5) else 0):
            e = util.dims(rng, 2, 3, 6)
            side.append(m.add_layer(latent_size=int(rng.choice([2, 3, 5])), child=m.add_matrix(util.data(rng, e, .5, .1), fixed=True),
                                    model=str(rng.choice(ref.EIGHT + (['MAX-AND'] if trial < 4 else [])))))
    plant(rng, lr)
    auto = ('clean', 'reset')[trial % 2]
    setattr(lr, 'auto_' + auto, True)
    autos = [(lr, auto)]
    for ly in side:
        plant(rng, ly)
        a = ['clean', 'reset', None][int(rng.choice(3, p=[.45, .45, .1]))]
        if a:
            setattr(ly, 'auto_' + a, True)
            autos.append((ly, a))
    if side and rng.random() < .3:          # only a later layer is cleaned
        setattr(lr, 'auto_' + auto, False)
        autos = autos[1:]
    if rng.random() < .4:
        for f in lr.factors:
            f.fixed_entries = (rng.random(f.val.shape) < .2).astype(np.int8)
    what = '%s %dD %s L=%d, inference with auto_%s' % (model, K, list(ds), L, auto)

    def spy(layer, reset=True, clean=False):
        before = state(layer)
        others = bystanders(m, layer)
        ret = real(layer, reset, clean)
        if not any(layer is ly for ly, _ in autos) or not (reset or clean):
            now = state(layer)
            obs.ok(all(len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b)) for a, b in zip(before[:2], now[:2])), 'not_asked',
                   what + ': a layer without automatic cleaning was cleaned')
            return ret
        (check_reset if reset else check_clean)(obs, layer, before, ret, what)
        check_bystanders(obs, others, what)
        obs.count('intercepted')
        return ret
    S = int(rng.choice([1, 3]))
    kw = dict(burn_in_min=int(rng.integers(0, 4)), burn_in_max=int(rng.choice([6, 30])), no_samples=S, convergence_window=int(rng.choice([2, 4])),
              convergence_eps=float(rng.choice([.05, .6])))
    aux.clean_up_codes = spy
    record = []         # factors before every update

    def before(k, x):
        record.append((k, [[np.array(f.val) for f in ly.factors] for ly, _ in autos]))
    tap = Tap(m, before=before, limit=3000).install()
    try:
        with Api('%s, %s' % (what, kw)):
            m.infer(**kw)
    finally:
        aux.clean_up_codes = real
    tap.remove()
    L1 = lr.size
    n = sum(not x.fixed for x in m.members) + len(m.lbdas)      # updates per sweep
    T = len(record) // n                        # sweeps
    obs.ok(len(record) % n == 0 and T >= S, 'sweeps', lambda: '%s: %d updates' % (what, len(record)))
    burn = T - S
    converged = kw['burn_in_min'] < burn < kw['burn_in_max']
    for j, (ly, how) in enumerate(autos):
        first = record[burn * n][1][j]          # what sampling starts from
        if how == 'reset' or converged:
            ina, dup = useless(first) if first[0].shape[1] else (set(), set())
            obs.ok(not ina and not dup, 'left_after_burn_in', lambda: '%s, %s: sampling starts, after %d burn-in sweeps, with inactive dimensions %s and dimensions sharing a column %s in layer %d of %d (auto_%s)' % (
                what, kw, burn, sorted(ina), sorted(dup), m.layers.index(ly) + 1, len(m.layers), how))
            obs.count('clean_starts')
            obs.count('clean_starts_converged', converged)
            obs.count('clean_starts_side', ly is not lr)
    obs.ok(all(f.val.shape == (n, L1) for f, n in zip(lr.factors, ds)), 'shapes', lambda: '%s: factor shapes %s' % (what, [f.val.shape for f in lr.factors]))
    obs.ok(all(f.fixed_entries.shape == f.val.shape for f in lr.factors), 'masks', what + ': mask shapes')
    obs.ok(all(f.trace.shape == (S,) + f.val.shape for f in lr.factors), 'traces', lambda: '%s: trace shapes %s' % (what, [f.trace.shape for f in lr.factors]))
    obs.ok(all(np.array_equal(f.trace[-1], f.val) for f in lr.factors), 'traces', what + ': last trace entry')
    obs.ok(np.shape(lr.lbda.trace) == (S,) + np.shape(lr.lbda.val), 'traces', lambda: '%s: dispersion trace %s' % (what, np.shape(lr.lbda.trace)))
    if model == 'MAX-AND':
        obs.ok(np.shape(lr.lbda.val) == (L1 + 1,), 'dispersion', '%s: %s dispersions for %d dimensions' % (what, np.shape(lr.lbda.val), L1))
    for ly in [x for x in m.layers if x is not lr and x not in side]:
        f = [x for x in m.members if x is ly.child][0]
        obs.ok(tuple(len(g.val) for g in ly.factors) == f.val.shape and all(g.fixed_entries.shape == g.val.shape and g.trace.shape == (S,) + g.val.shape
               for g in ly.factors), 'above', lambda: '%s: a layer above has factors %s, its child is %s' % (what, [g.val.shape for g in ly.factors], f.val.shape))
        obs.count('layers_above_after_inference')
    for ly in [lr] + side:
        if not ly.size:
            continue
        obs.ok(all(f.trace.shape == (S,) + f.val.shape and f.val.shape[1] == ly.size for f in ly.factors), 'traces', what + ': trace shapes of a layer')
        with Api('output after ' + what):
            o = np.asarray(ly.output(technique='factor_mean'))
        obs.ok(o.shape == ly.child.val.shape, 'output', '%s: output shape %s' % (what, o.shape))
    obs.count('infer_' + auto)
