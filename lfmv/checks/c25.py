import copy
import sys
import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.tap import Tap
from lfmv.checks import c23, c24

PROPERTY = 'C25'
RULE = ('random assembled machines are inferred and interrupted (KeyboardInterrupt or another exception raised between two updates, '
        'inside an update function, or at a random executed line of the sampling code), copied with copy.deepcopy, or run to the end; '
        'afterwards they are compared with a machine built anew and set to the same state: same random numbers, same further inference, same '
        'traces, means and outputs. Distinct non-trivial = distinct (machine, point of interruption).')
REQUIRED = {'machines': 200, 'interrupted': 150, 'between_updates': 25, 'at_lines': 50, 'in_burn_in': 30, 'in_sampling': 12, 'continued': 200, 'members_compared': 2000,
            'outputs_compared': 400, 'copies': 60, 'copies_of_inferred': 30, 'independent': 60, 'hierarchies': 60, 'growing': 8, 'fixed_kept': 60, 'moved': 100}


def cases(tier, seed):
    out = []
    for r in range(16 if tier == 'quick' else 200):
        out.append({'kind': 'interrupt', 'seed': [seed, r]})
        if r % 2 == 0:
            out.append({'kind': 'copy', 'seed': [seed, r]})
    return out


class Stop(Exception):
    pass


def make(case, trial):
    """the machine of a trial, always the same one"""
    rng = util.rng_of('c25', case, trial)
    np.random.seed(int(rng.integers(1 << 31)))
    m, layers, desc = c23.assemble(rng, c24.Mute())
    c23.dress(rng, m, layers, fix=True)
    for l in layers:
        if l.model == 'OR-AND-IBP':
            l.alpha = float(rng.choice([.5, 1, 3]))
        elif rng.random() < .1:
            setattr(l, ['auto_clean', 'auto_reset'][int(rng.integers(2))], True)
    return m, layers, desc


def grab(m, layers):
    return [(np.array(o.val) if isinstance(o.val, np.ndarray) else copy.copy(o.val), bool(o.fixed), np.array(o.fixed_entries) if hasattr(o, 'fixed_entries') else None)
            for o in c23.parts(m)]


def put(m, st):
    for o, (v, fx, fe) in zip(c23.parts(m), st):
        o.val = np.array(v) if isinstance(v, np.ndarray) else copy.copy(v)
        o.fixed = fx
        if fe is not None:
            o.fixed_entries = np.array(fe)


def follow(m, seed, kw):
    np.random.seed(seed)
    m.infer(**kw)


def compare(obs, what, a, b, la, lb):
    """two machines after the same inference"""
    for x, y in zip(c23.parts(a), c23.parts(b)):
        obs.ok(np.array_equal(x.val, y.val), 'state', lambda: '%s: a member ends as %s instead of %s' % (what, str(np.asarray(x.val))[:120], str(np.asarray(y.val))[:120]))
        if not x.fixed:
            obs.ok(np.array_equal(np.asarray(x.trace), np.asarray(y.trace)), 'trace', lambda: '%s: traces differ (%s, %s)' % (what, np.shape(x.trace), np.shape(y.trace)))
        obs.ok(np.array_equal(np.asarray(x.mean()), np.asarray(y.mean())), 'mean', what + ': means differ')
        obs.count('members_compared')
    for l, k in zip(la, lb):
        t = ['point_estimate', 'factor_map', 'factor_mean', 'mc'][len(la) % 4]
        if l.size == 0:
            continue
        with Api('%s: output(%r) of %s' % (what, t, l.model)):
            o, p = l.output(technique=t), k.output(technique=t)
        obs.ok(np.array_equal(o, p), 'output', what + ': outputs differ')
        obs.count('outputs_compared')


def later(rng):
    return dict(no_samples=int(rng.choice([1, 2, 4])), burn_in_min=int(rng.integers(0, 3)), burn_in_max=int(rng.integers(0, 9)), convergence_window=int(rng.choice([2, 3])),
                convergence_eps=float(rng.choice([1e-3, .3])), print_step=3)


class Lines(object):
    """raises at the n-th executed line of the sampling code (calls that restructure a layer are left to finish)"""
    def __init__(self, n, err):
        self.n, self.err, self.at = n, err, None
        self.hot = 0

    def __call__(self, frame, event, arg):
        f = frame.f_code.co_filename.replace('\\', '/')
        if '/lom/' not in f or frame.f_code.co_name == '__init__':
            return None
        if event == 'call' and (frame.f_code.co_name in ('clean_up_codes', 'remove_dimension') or self.hot):
            self.hot += 1
            return self.protected
        return self.local if event == 'call' else None

    def protected(self, frame, event, arg):
        if event == 'return':
            self.hot -= 1
        return self.protected

    def local(self, frame, event, arg):
        if event == 'line' and not self.hot and self.at is None:
            self.n -= 1
            if self.n <= 0:
                self.at = '%s:%d' % (frame.f_code.co_filename.split('/lom/')[-1], frame.f_lineno)
                sys.settrace(None)
                raise self.err
        return self.local


def run(case, obs):
    rng = util.rng_of('c25 run', case)
    core.load()
    for trial in range(14 if case['kind'] == 'interrupt' else 10):
        with Api('building'):
            m, layers, desc = make(case, trial)
        obs.count('machines')
        obs.count('hierarchies', any(l.child.layer is not None for l in layers))
        obs.count('growing', any(l.model == 'OR-AND-IBP' for l in layers))
        {'interrupt': interrupt, 'copy': copies}[case['kind']](case, obs, rng, trial, m, layers, desc)
    obs.sample = {'kind': case['kind'], 'machine': desc}


def interrupt(case, obs, rng, trial, m, layers, desc):
    err = [KeyboardInterrupt, Stop, MemoryError][int(rng.choice(3, p=[.5, .3, .2]))]('injected')
    kw = dict(no_samples=int(rng.choice([2, 5, 9])), burn_in_min=int(rng.integers(0, 4)), burn_in_max=int(rng.choice([3, 8])), convergence_window=2, convergence_eps=.01, print_step=2)
    s0 = grab(m, layers)
    how = ['between', 'lines', 'lines'][trial % 3]
    n = max(1, sum(not o.fixed for o in c23.parts(m)))
    at, phase = '', None
    for rep in range(1 + int(rng.random() < .25)):          # possibly interrupted twice
        ended = None
        try:
            with core.quiet():
                if how == 'between':
                    k = int(rng.integers(1, n * (kw['no_samples'] + 8)))
                    left = [k]

                    def before(kind, x):
                        left[0] -= 1
                        if left[0] == 0:
                            raise err
                    tap = Tap(m, before=before, limit=20000).install()
                    try:
                        m.infer(**kw)
                    finally:
                        tap.remove()
                        at = 'before update %d' % k
                else:
                    ln = Lines(int(10 ** rng.uniform(0, 3.9)), err)
                    sys.settrace(ln)
                    try:
                        m.infer(**kw)
                    finally:
                        sys.settrace(None)
                        at = 'at ' + str(ln.at)
        except BaseException as e:
            ended = e
            if e is not err:
                if isinstance(e, core.StepLimit):
                    raise
                obs.fail('other_error', '[%s]: %s, interrupted %s: %r instead of the injected exception' % (desc, kw, at, e))
        what = '[%s] inference %s' % (desc, ('interrupted %s by %s' % (at, type(err).__name__)) if ended is not None else 'run to the end')
        if ended is not None:
            obs.count('interrupted')
            obs.count('between_updates' if how == 'between' else 'at_lines')
            saved = any(getattr(x, 'trace', None) is not None and len(x.trace) == kw['no_samples'] for x in m.members)
            obs.count('in_sampling' if saved else 'in_burn_in')
            obs.saw(desc, at)
        if ended is not None and how == 'lines' and torn(layers):
            obs.count('torn')       # between two assignments that hand over resized arrays; only interruptions between updates are judged there
            return
        # what is left is a valid machine; nothing fixed has moved
        valid(obs, m, layers, what)
        for o, (v, fx, fe) in zip(c23.parts(m), s0):
            obs.ok(bool(o.fixed) == fx, 'flags', what + ': a fixed flag changed')
            if fx:
                obs.ok(np.array_equal(o.val, v) or np.shape(o.val) != np.shape(v), 'fixed', what + ': a fixed member changed')
                obs.count('fixed_kept')
            else:
                obs.count('moved', not np.array_equal(o.val, v))
    # continuing is like starting a new machine from here
    st = grab(m, layers)
    with Api('building'):
        m2, layers2, _ = make(case, trial)
    put(m2, st)
    kw2, seed = later(rng), int(rng.integers(1 << 31))
    with Api(what + ', inference continued with %s' % kw2):
        follow(m, seed, kw2)
    with Api('inference %s from the state left by: %s' % (kw2, what)):
        follow(m2, seed, kw2)
    compare(obs, '%s, continued with %s' % (what, kw2), m, m2, layers, layers2)
    obs.count('continued')


def torn(layers):
    return any(len({f.val.shape[1] for f in l.factors}) > 1 or [f.val.shape[0] for f in l.factors] != list(l.child.val.shape) or
               any(f.fixed_entries.shape != f.val.shape for f in l.factors) for l in layers)


def valid(obs, m, layers, what):
    for x in c23.everything(m):
        v = np.asarray(x.val)
        q = x.layer is not None and getattr(x.layer, 'q', None) is x
        obs.ok(v.dtype == np.int8 and (bool(((v >= 1) & (v <= 5)).all()) if q else bool((np.abs(v) <= 1).all())), 'domain',
               lambda: '%s: member has type %s and values %s' % (what, v.dtype, np.unique(v)))
    for l in layers:
        L = [f.val.shape[1] for f in l.factors]
        obs.ok(len(set(L)) == 1 and [f.val.shape[0] for f in l.factors] == list(l.child.val.shape) and all(f.fixed_entries.shape == f.val.shape for f in l.factors), 'shape',
               lambda: '%s: factors %s, masks %s of a layer whose child is %s' % (what, [f.val.shape for f in l.factors], [f.fixed_entries.shape for f in l.factors], l.child.val.shape))


def copies(case, obs, rng, trial, m, layers, desc):
    inferred = bool(rng.random() < .6)
    if inferred:
        with Api('infer'):
            follow(m, int(rng.integers(1 << 31)), later(rng))
    what = '[%s], copied %s' % (desc, 'after an inference' if inferred else 'before any inference')
    with Api(what):
        c = copy.deepcopy(m)
    lc = list(c.layers)
    obs.ok(len(lc) == len(layers) and all(x is not y for x, y in zip(c23.parts(m), c23.parts(c))), 'copy', what + ': parts are shared')
    same = [(np.array_equal(x.val, y.val), x.fixed == y.fixed) for x, y in zip(c23.parts(m), c23.parts(c))]
    obs.ok(all(a and b for a, b in same), 'copy', what + ': copy has other values')
    before = [c23.state(x) for x in c23.parts(m)]
    traces = [np.array(x.trace) if 'trace' in x.__dict__ else None for x in c23.parts(m)]
    kw, seed = later(rng), int(rng.integers(1 << 31))
    with Api(what + ', inference of the copy with %s' % kw):
        follow(c, seed, kw)
    obs.ok(before == [c23.state(x) for x in c23.parts(m)] and all((t is None) == ('trace' not in x.__dict__) and (t is None or np.array_equal(t, x.trace))
           for t, x in zip(traces, c23.parts(m))), 'independent', what + ': inference of the copy changed the original')
    obs.count('independent')
    st = [(np.array(x.val), np.array(x.trace) if not x.fixed else None) for x in c23.parts(c)]
    with Api(what + ', inference of the original with %s' % kw):
        follow(m, seed, kw)
    obs.ok(all(np.array_equal(v, x.val) and (t is None or np.array_equal(t, x.trace)) for (v, t), x in zip(st, c23.parts(c))), 'independent',
           what + ': inference of the original changed the copy')
    compare(obs, what + ', both inferred with %s' % kw, c, m, lc, layers)
    obs.count('continued')
    obs.count('copies')
    obs.count('copies_of_inferred', inferred)
    obs.saw('copy', desc, inferred)
