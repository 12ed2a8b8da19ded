import json
import os
import random
import subprocess
import sys
import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.scen import Scenario, spec, KINDS

PROPERTY = 'C14'
RULE = ('one case = a batch of scenarios (all models, hierarchies, annealing, cleaning, repeated inference, outputs), each reduced to '
        'digests of states, traces and outputs after every step, and re-executed: again, after and between unrelated activity, with other machines '
        'built or inferring in between, in fresh processes (other hash seed, other scenario order, malloc perturbation), '
        'and with freshly allocated arrays poisoned by three different patterns. Distinct non-trivial = distinct digests.')
REQUIRED = {'same_process': 50, 'after_activity': 50, 'interleaved': 50, 'fresh_process': 80, 'poisoned': 150, 'many_iterations': 8, 'poisoned_arrays': 500, 'kinds': 34, 'different_seeds': 16}


def cases(tier, seed):
    out = []
    for r in range(1 if tier == 'quick' else 20):
        for i in range(8):
            out.append({'kind': 'local', 'seed': [seed, r, i]})
            out.append({'kind': 'fresh', 'seed': [seed, r, i]})
    return out


def compare(obs, a, b, s, how):
    names = 'build (state, traces), inference (state, traces), outputs ...'
    obs.ok(a == b, how, lambda: '%s: scenario %s: results differ at step %s of %d [%s]' % (
        how, json.dumps(s), [i for i, (x, y) in enumerate(zip(a, b)) if x != y][:3], len(a), names), n=len(a))
    obs.count(how)
    for x in a:
        obs.saw(x)


def baseline(s):
    with Api('scenario %s' % json.dumps(s)):
        return Scenario(s).run()


class Poison(object):
    """freshly allocated, uninitialised arrays are filled with a pattern"""

    def __init__(self, obs, pattern):
        self.obs, self.pattern = obs, pattern

    def fill(self, a):
        self.obs.count('poisoned_arrays')
        if isinstance(a, np.ndarray) and a.dtype != object and a.size:
            try:
                flat = a.reshape(-1).view(np.uint8)
                flat[:] = self.pattern
            except Exception:
                a[...] = 1
            if a.dtype.kind == 'f' and self.pattern == 0x3e:
                a[...] = .7
        return a

    def __enter__(self):
        self.old = (np.empty, np.empty_like)
        e, el = self.old
        np.empty = lambda *a, **k: self.fill(e(*a, **k))
        np.empty_like = lambda *a, **k: self.fill(el(*a, **k))

    def __exit__(self, *_):
        np.empty, np.empty_like = self.old


def activity(rng):
    """unrelated machines, global activity"""
    lom = core.load()
    for _ in range(2):
        kind = KINDS[int(rng.integers(len(KINDS)))]
        with Api('unrelated %s' % kind):
            Scenario(spec(rng, kind)).run()
    np.random.rand(int(rng.integers(50)))
    random.seed()
    random.random()
    junk = [np.full(int(n), 113, dtype=np.int8) for n in rng.integers(1, 3000, size=40)]
    junk += [np.full(int(n), 1e300) for n in rng.integers(1, 300, size=40)]
    del junk


def different_seeds(obs, rng):
    """one machine in one state, two seeds: two different runs, however long"""
    X = util.data(rng, (6, 5), .5, .1)
    for S, lo in ((3, 0), (260, 0), (3, 260), (1100 if rng.random() < .4 else 520, 3)):
        model = ref.EIGHT[int(rng.integers(8))]
        m, d, lr = util.build(X, 2, model)
        start = [f.val.copy() for f in lr.factors]
        lr.lbda.fixed, lr.lbda.val = True, .1
        for f, p in zip(lr.factors, (.35, .6)):
            f.bernoulli_prior = p       # no ties, which would be settled without chance
        seen = []
        for seed in rng.integers(1 << 31, size=2):
            for f, v in zip(lr.factors, start):
                f.val = v.copy()
            np.random.seed(int(seed))
            with Api('Machine.infer'):
                m.infer(burn_in_min=lo, burn_in_max=lo, no_samples=S, convergence_window=5)
            seen.append([core.digest(np.asarray(f.trace)) for f in lr.factors] + [core.digest(np.random.get_state()[1]) + str(np.random.get_state()[2])])
        obs.ok(seen[0][:-1] != seen[1][:-1], 'different_seeds', '%s, %d burn-in sweeps, %d samples: two seeds give the same traces' % (model, lo, S))
        obs.ok(seen[0][-1] != seen[1][-1], 'different_seeds', '%s, %d burn-in sweeps, %d samples: after runs with two seeds the random state is the same' % (model, lo, S))
        obs.count('different_seeds')


def run(case, obs):
    rng = util.rng_of('c14', case)
    i = case['seed'][2]
    kinds = [k for j, k in enumerate(KINDS) if j % 8 == i] if case['kind'] == 'local' else [KINDS[(i + 5 * j) % len(KINDS)] for j in range(7)]
    random.seed()
    if case['kind'] == 'local':
        for kind in kinds:
            obs.count('kinds')
            for rep in range(4):
                s = spec(rng, kind)
                if rep == 3:        # many iterations
                    if kind != kinds[0]:
                        continue
                    s.update(dims=[2] * s['K'], L=1 + i % 2, again=False)
                    s['kw'].update(no_samples=1100 if i % 2 else 3, burn_in_min=0 if i % 2 else 520, burn_in_max=700)
                    base = baseline(s)
                    activity(rng)
                    compare(obs, base, baseline(s), s, 'many_iterations')
                    continue
                base = baseline(s)
                compare(obs, base, baseline(s), s, 'same_process')
                activity(rng)
                compare(obs, base, baseline(s), s, 'after_activity')
                for p in (0xff, 0x7f, 0x3e):
                    with Poison(obs, p):
                        got = baseline(s)
                    compare(obs, base, got, s, 'poisoned')
                # interleaved with another machine
                for other_kind in (kind, KINDS[int(rng.integers(len(KINDS)))]):
                    o = spec(rng, other_kind)
                    obase = baseline(o)
                    with Api('interleaved scenarios %s / %s' % (s['kind'], o['kind'])):
                        a, b = Scenario(s), Scenario(o)
                        a.build()
                        b.build()
                        a.infer()
                        st = a.out[-2:]
                        b.infer()
                        a.note()
                        obs.ok(a.out[-2:] == st, 'interference', '%s: inference of another machine (%s) changed this one' % (s['kind'], o['kind']))
                        del a.out[-2:]
                        if s['again']:
                            a.infer(1)
                        if o['again']:
                            b.infer(1)
                        b.outputs()
                        a.outputs()
                    compare(obs, base, a.out, s, 'interleaved')
                    compare(obs, obase, b.out, o, 'interleaved')
        different_seeds(obs, rng)
        obs.sample = {'kind': 'local', 'scenario': s, 'digests': base[:4]}
        return
    specs = [spec(rng, k) for k in kinds for _ in range(2)]
    obs.count('kinds', len(kinds))
    base = [baseline(s) for s in specs]
    for v in range(2):
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str(1 + int(rng.integers(4000)))
        env['MALLOC_PERTURB_'] = str([165, 90][v])
        order = [int(k) for k in rng.permutation(len(specs))]
        p = subprocess.run([sys.executable, '-m', 'lfmv.scen'], input=json.dumps([specs[k] for k in order]), env=env, capture_output=True, text=True)
        if p.returncode != 0:
            obs.fail('fresh_process', 'the scenarios run here but fail in a fresh process: ' + p.stderr[-600:])
        got = json.loads(p.stdout.strip().splitlines()[-1])
        for k, g in zip(order, got):
            compare(obs, base[k], g, specs[k], 'fresh_process')
    obs.sample = {'kind': 'fresh', 'scenario': specs[0], 'digests': base[0][:4], 'hash_seed': env['PYTHONHASHSEED']}
