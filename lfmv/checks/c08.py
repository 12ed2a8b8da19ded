import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.tap import Tap

PROPERTY = 'C08'
RULE = ('one case = architecture (eight models 2D/3D, MAX-AND, qL-AND, IBP-free hierarchies with free data or middle matrices, '
        'inverted and special data) x random masks (entries, rows, columns, everything), fixed matrices and dispersions, driven '
        'through several inferences (burn-in, freezing, annealing, sampling, reset/removal, re-fixing in between). The state is '
        'compared around every single update and in every trace entry. Distinct non-trivial = distinct (architecture, masks, '
        'fixed set, values).')
REQUIRED = {'updates_watched': 4000, 'fixed_entry_comparisons': 40000, 'free_entries_flipped': 2500, 'caller_arrays': 100,
            'fixed_dispersions': 60, 'fixed_matrices': 100, 'trace_entries': 1000, 'resets': 30, 'removals': 15,
            'annealed': 15, 'inverted_data': 20, 'two_parents': 20, 'masks_in_place': 60}
ASSUMPTIONS = ['entries are pinned through MachineMatrix.fixed_entries, matrices and dispersions through .fixed (boolean)']
FLAVOURS = ['plain', 'plain', 'anneal', 'cleanup', 'inverted']


def cases(tier, seed):
    out = []
    for r in range(2 if tier == 'quick' else 20):
        for m in ref.EIGHT:
            for K in (2, 3):
                out.append({'arch': m, 'K': K, 'seed': [seed, r]})
        for a in ('MAX-AND', 'qL-AND'):
            for i in range(3):
                out.append({'arch': a, 'K': 2, 'seed': [seed, r, i]})
        for i in range(14):
            out.append({'arch': 'hier', 'K': 2 if i < 11 else 3, 'seed': [seed, r, i]})
    return out


def random_mask(rng, shape):
    k = int(rng.integers(6))
    mask = np.zeros(shape, dtype=np.int8)
    if k == 1:
        mask[rng.random(shape) < .2] = 1
    elif k == 2:
        mask[rng.random(shape) < .7] = 1
    elif k == 3:
        mask[int(rng.integers(shape[0]))] = 1
    elif k == 4:
        mask[:, int(rng.integers(shape[1]))] = 1
    elif k == 5:
        mask[:] = 1
        mask[int(rng.integers(shape[0])), int(rng.integers(shape[1]))] = 0
    return mask


class Watch(object):
    """remembers what must not change and compares it around every update"""

    def __init__(self, obs, machine, label):
        self.obs, self.m, self.label = obs, machine, label
        self.flipped = {}

    def mats(self):
        return list(self.m.members)

    def pin(self):
        """(re)record everything that is fixed now"""
        self.ref = {}
        for i, x in enumerate(self.mats()):
            self.ref[i] = (np.array(x.val), np.ones(x.val.shape, bool) if x.fixed else np.asarray(x.fixed_entries) == 1)
        self.lref = {i: np.array(l.val, dtype=float) for i, l in enumerate(self.m.lbdas) if l.fixed}

    def snapshot(self, kind, x):
        self.snap = [np.array(y.val) for y in self.mats()]
        self.lsnap = [np.array(l.val, dtype=float) for l in self.m.lbdas]

    def compare(self, kind, x):
        obs = self.obs
        obs.count('updates_watched')
        self.check('during an update')
        for i, y in enumerate(self.mats()):
            if y is x:
                if self.snap[i].shape == np.shape(y.val):
                    self.flipped.setdefault(i, []).append(int((self.snap[i] != y.val).sum()))
                continue
            obs.ok(np.array_equal(self.snap[i], y.val), 'neighbour',
                   lambda: '%s: the update of another member changed matrix %d' % (self.label, i))
        for i, l in enumerate(self.m.lbdas):
            if l is not x:
                obs.ok(np.array_equal(self.lsnap[i], np.array(l.val, dtype=float)), 'neighbour',
                       lambda: '%s: the update of another member changed dispersion %d' % (self.label, i))

    def check(self, when):
        obs = self.obs
        for i, y in enumerate(self.mats()):
            v, mask = self.ref[i]
            if not mask.any():
                continue
            got = np.asarray(y.val)
            obs.ok(got.shape == v.shape and np.array_equal(got[mask], v[mask]), 'fixed',
                   lambda: '%s: %s, fixed entries of matrix %d changed: %s' % (
                       self.label, when, i, util.diff_at(np.where(mask, got, 0), np.where(mask, v, 0)) if got.shape == v.shape else 'shape'))
            obs.count('fixed_entry_comparisons', int(mask.sum()))
        for i, v in self.lref.items():
            got = np.array(self.m.lbdas[i].val, dtype=float)
            obs.ok(np.array_equal(got, v), 'fixed_dispersion',
                   lambda: '%s: %s, fixed dispersion %d changed from %s to %s' % (self.label, when, i, v, got))
            obs.count('fixed_dispersions')

    def check_traces(self):
        for i, y in enumerate(self.mats()):
            v, mask = self.ref[i]
            if y.fixed or not mask.any():
                continue
            for t, s in enumerate(y.trace):
                self.obs.ok(np.array_equal(s[mask], v[mask]), 'fixed_trace',
                            lambda: '%s: trace entry %d of matrix %d differs at fixed entries' % (self.label, t, i))
                self.obs.count('trace_entries')


def run(case, obs):
    rng = util.rng_of('c08', case)
    lom = core.load()
    import lom.auxiliary_functions as aux
    arch, K = case['arch'], case['K']
    for trial in range(5):
        flavour = FLAVOURS[trial % 5]
        L = int(rng.choice([1, 2, 3, 4]))
        ds = util.dims(rng, K, 2, 6 if K == 2 else 4)
        X0 = util.data(rng, ds, .5, rng.choice([0, .2]))
        model = arch
        if arch == 'hier':
            model = ref.EIGHT[int(rng.integers(8))]
        elif (flavour == 'inverted' or trial == 1) and arch in ref.EIGHT:
            model = ref.PAIRS[int(rng.integers(36))]
        if flavour == 'anneal' and arch == 'MAX-AND':
            flavour = 'plain'
        free_data = arch == 'hier' and K == 2 and rng.random() < .6
        if free_data:
            X0 = util.pm(rng, ds)
        label = '%s %dD %s L=%d %s' % (model, K, list(ds), L, flavour)
        caller, keep = X0, X0.copy()
        caller_u = None
        with Api('building ' + label):
            m = lom.Machine()
            d = m.add_matrix(caller, fixed=not free_data)
            lr = m.add_layer(latent_size=L, child=d, model=model)
            obs.ok(np.array_equal(caller, keep) and caller.dtype == keep.dtype, 'caller',
                   lambda: label + ': the array passed in as data was modified by add_layer')
            inverted = np.array_equal(np.asarray(d()), -keep) and keep.any()
            obs.count('inverted_data', inverted)
            layers = [lr]
            if arch == 'hier':
                mid = lr.factors[int(rng.integers(K))]
                layers.append(m.add_layer(latent_size=2, child=mid, model=ref.EIGHT[int(rng.integers(8))]))
                if free_data and rng.random() < .5:
                    layers.append(m.add_layer(latent_size=2, child=d, model=ref.EIGHT[int(rng.integers(8))]))
                if K == 2 and rng.random() < .6:        # a factor with two parents
                    layers.append(m.add_layer(latent_size=2, child=mid, model=ref.EIGHT[int(rng.integers(8))]))
                    obs.count('two_parents')
        if free_data:
            # a free data matrix is the caller's own array only if the caller hands it over for sampling
            d.val = np.array(d.val)
        specials = flavour == 'cleanup' and arch != 'hier' and arch != 'qL-AND'
        for ly in layers:
            for f in ly.factors:
                f.val = util.pm(rng, f.val.shape, rng.choice([.4, .7]))
                pin_entries(obs, rng, m, f)
                f.bernoulli_prior = float(rng.choice([.5, .5, .5, .2]))
                f.fixed = flag(rng, rng.random() < .2 and not specials)
            if arch != 'MAX-AND':
                ly.lbda.val = float(rng.choice([.1, 1., 3.]))
            elif rng.random() < .5:
                ly.lbda.val = np.append(rng.uniform(.3, .95, size=L), .05)
            ly.lbda.fixed = flag(rng, rng.random() < .4)
        if free_data and rng.random() < .7:
            pin_entries(obs, rng, m, d)
        if arch == 'qL-AND':
            lr.q.fixed = flag(rng, rng.random() < .5)
            lr.q.val = rng.integers(1, 4, size=lr.q.val.shape).astype(np.int8)
            if rng.random() < .5:
                lr.q.val[0, 0] = 2
        w = Watch(obs, m, label)
        if specials:
            cleanup(case, obs, rng, aux, m, lr, label)
            continue
        for phase in range(3):
            # user changes what is fixed between inferences
            if phase:
                for f in [f for ly in layers for f in ly.factors]:
                    if rng.random() < .4:
                        f.fixed = flag(rng, not f.fixed)
                    if rng.random() < .4:
                        pin_entries(obs, rng, m, f)
                for ly in layers:
                    if rng.random() < .4:
                        ly.lbda.fixed = flag(rng, not ly.lbda.fixed)
            w.pin()
            obs.count('fixed_matrices', sum(bool(x.fixed) for x in m.members))
            tap = Tap(m, before=w.snapshot, after=w.compare).install()
            kw = dict(burn_in_min=int(rng.integers(0, 4)), burn_in_max=int(rng.integers(0, 12)), no_samples=3, convergence_window=4,
                      convergence_eps=float(rng.choice([1e-9, .5])))
            if flavour == 'anneal' and phase == 1:
                m.anneal = True
                kw['burn_in_min'] = 4
                obs.count('annealed')
            elif kw['burn_in_min'] and rng.random() < .3:
                kw['fix_lbda_iters'] = 2
            with Api('Machine.infer, %s, %s' % (label, kw)):
                m.infer(**kw)
            m.anneal = False
            tap.remove()
            w.check('after inference')
            w.check_traces()
        obs.ok(np.array_equal(caller, keep), 'caller', label + ': the array passed in as data was modified')
        obs.count('caller_arrays')
        obs.saw(label, core.digest(*[x.val for x in m.members]), core.digest(*[x.fixed_entries for x in m.members]))
        # free neighbours still move: with zero evidence each free entry flips at every sweep, fixed ones never
        for x in m.members:
            x.bernoulli_prior = .5
        for ly in layers:
            ly.lbda.val = np.full(L + 1, .5) if arch == 'MAX-AND' else 0.
            ly.lbda.fixed = True
        if arch == 'qL-AND':
            lr.q.fixed = True
        w.pin()
        before = [np.array(x.val) for x in m.members]
        with Api('Machine.infer without evidence, ' + label):
            util.sweeps(m, 1)
        w.check('without evidence')
        for i, x in enumerate(m.members):
            free = ~w.ref[i][1]
            obs.ok(np.array_equal(np.asarray(x.val)[free], -before[i][free]), 'free',
                   lambda: '%s: without evidence (flip odds 1) %d of %d free entries of matrix %d did not flip' % (
                       label, int((np.asarray(x.val)[free] == before[i][free]).sum()), int(free.sum()), i))
            obs.count('free_entries_flipped', int(free.sum()))
    obs.sample = {'arch': label, 'fixed_matrices': [bool(x.fixed) for x in m.members],
                  'pinned_entries': [int(np.sum(x.fixed_entries)) for x in m.members],
                  'updates_watched': obs.counters.get('updates_watched')}


def pin_entries(obs, rng, m, f):
    """a new mask for one matrix, as an array of its own or written into the existing one"""
    mask = random_mask(rng, f.val.shape)
    if rng.random() < .5:
        f.fixed_entries = mask
        return
    others = [(x, np.array(x.fixed_entries)) for x in m.members if x is not f]
    f.fixed_entries[...] = mask
    obs.ok(all(np.array_equal(x.fixed_entries, v) for x, v in others), 'shared_mask',
           'pinning entries of one matrix pinned entries of another one')
    obs.count('masks_in_place')


def flag(rng, b):
    """a truth value the way users write it"""
    b = bool(b)
    return [b, b, np.bool_(b), int(b)][int(rng.integers(4))]


def cleanup(case, obs, rng, aux, m, lr, label):
    """latent dimensions are reset or removed, directly and within inference"""
    L = lr.size
    for f in lr.factors:
        if rng.random() < .5:                       # off and duplicate dimensions
            f.val[:, int(rng.integers(L))] = -1
        if L > 1 and rng.random() < .6:
            a, b = rng.choice(L, 2, replace=False)
            f.val[:, b] = f.val[:, a]
    for f in lr.factors:
        f.fixed = flag(rng, rng.random() < .3)
    w = Watch(obs, m, label)
    w.pin()
    with Api('clean_up_codes(reset), ' + label):
        aux.clean_up_codes(lr, reset=True, clean=False)
    w.check('after resetting dimensions')
    obs.count('resets')
    kw = dict(burn_in_min=2, burn_in_max=14, no_samples=2, convergence_window=3, convergence_eps=.6)
    # inference with automatic resetting: only its final clean-up may remove columns
    lr.auto_reset = True
    w.pin()

    def pinned_columns():
        return [[(np.asarray(f.fixed_entries)[:, l].tolist(), np.where(f.fixed_entries[:, l] == 1, f.val[:, l], 0).tolist())
                 for l in range(lr.size)] for f in lr.factors]

    def subsequence(new, old):
        it = iter(old)
        return all(any(n == o for o in it) for n in new)

    def consistent(old, when):
        new = pinned_columns()
        for i, (n, o) in enumerate(zip(new, old)):
            obs.ok(subsequence(n, o), 'fixed', lambda: '%s: %s, pinned entries of factor %d changed: %s -> %s' % (label, when, i, o, n))
        obs.count('fixed_entry_comparisons', sum(int(np.sum(f.fixed_entries)) for f in lr.factors))

    if lr.model != 'MAX-AND' or rng.random() < .5:
        for f in lr.factors:
            f.fixed = False
        old = pinned_columns()
        with Api('infer with auto_reset, ' + label):
            m.infer(**kw)
        consistent(old, 'inference with automatic resetting')
        obs.count('resets')
    lr.auto_reset = False
    if lr.size == 0:
        return
    for f in lr.factors:
        f.fixed = False
    old = pinned_columns()
    with Api('clean_up_codes(clean), ' + label):
        aux.clean_up_codes(lr, reset=False, clean=True)
    consistent(old, 'removal of dimensions')
    obs.count('removals')
    if lr.size:
        lr.auto_clean = True
        old = pinned_columns()
        with Api('infer with auto_clean, ' + label):
            m.infer(**kw)
        consistent(old, 'inference with automatic cleaning')
        obs.count('removals')
