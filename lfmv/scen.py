"""
Self-contained scenarios (build machines, run inference, compute outputs) whose complete result is digested.
`python -m lfmv.scen` reads a JSON list of scenarios on stdin and prints their digests (fresh process).
"""
import json
import sys
import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api

KINDS = ref.EIGHT + ['MAX-AND', 'qL-AND', 'OR-AND-IBP', 'hier', 'hierfree', 'pair', 'clean', 'reset', 'anneal']


def spec(rng, kind):
    K = 3 if kind in ref.EIGHT + ['pair', 'clean', 'anneal'] and rng.random() < .4 else 2
    return dict(kind=kind, K=K, dims=list(util.dims(rng, K, 2, 6 if K == 2 else 4)), L=int(rng.choice([1, 2, 3, 5])), missing=float(rng.choice([0, .3])),
                seed=int(rng.integers(1 << 30)), pick=[int(k) for k in rng.integers(36, size=4)],
                kw=dict(burn_in_min=int(rng.integers(0, 5)), burn_in_max=int(rng.integers(0, 20)), no_samples=int(rng.integers(1, 5)),
                        convergence_window=int(rng.choice([2, 3, 5, 8])), convergence_eps=float(rng.choice([.005, .05, .4]))),
                again=bool(rng.random() < .4), mask=bool(rng.random() < .4), prior=float(rng.choice([.5, .5, .3])))


class Scenario(object):
    def __init__(self, s):
        self.s = s
        self.out = []

    def build(self):
        s = self.s
        lom = core.load()
        rng = np.random.default_rng(s['seed'])
        kind = s['kind']
        model = kind
        pick = [ref.EIGHT[k % 8] for k in s['pick']]
        if kind == 'pair':
            model = ref.PAIRS[s['pick'][0]]
        elif kind in ('hier', 'hierfree', 'clean', 'reset', 'anneal'):
            model = pick[0]
        X = util.data(rng, s['dims'], .5, 0 if kind == 'hierfree' else s['missing'])
        np.random.seed(s['seed'] % (1 << 31))
        m = self.m = lom.Machine()
        d = m.add_matrix(X, fixed=kind != 'hierfree')
        lr = m.add_layer(latent_size=s['L'] + 2 * (kind in ('clean', 'reset')), child=d, model=model)
        if kind.startswith('hier'):
            l1 = m.add_layer(latent_size=2, child=lr.factors[s['pick'][3] % 2], model=pick[1])
            m.add_layer(latent_size=2, child=d if kind == 'hierfree' else l1.factors[0], model=pick[2])
        if kind == 'clean':
            lr.auto_clean = True
        if kind == 'reset':
            lr.auto_reset = True
        if kind == 'anneal':
            m.anneal = True
            lr.lbda.val = 1.5
        if s['mask'] and kind not in ('OR-AND-IBP', 'clean', 'reset'):
            for f in lr.factors:
                f.fixed_entries = (rng.random(f.val.shape) < .3).astype(np.int8)
        for f in lr.factors:
            f.bernoulli_prior = s['prior'] if model in ref.EIGHT else .5
        self.note()

    def kw(self):
        k = dict(self.s['kw'])
        if self.s['kind'] == 'anneal':
            k['burn_in_min'] = max(1, k['burn_in_min'])
        if self.s['kind'] in ('clean', 'reset'):
            k['burn_in_max'] = 25
        if self.s['kind'] == 'OR-AND-IBP':
            k['burn_in_min'], k['burn_in_max'] = min(2, k['burn_in_min']), 4
        return k

    def infer(self, salt=0):
        np.random.seed((self.s['seed'] + 17 * salt + 5) % (1 << 31))
        self.m.infer(**self.kw())
        self.note()

    def note(self):
        m = self.m
        self.out.append(core.digest(*[x.val for x in m.members] + [np.asarray(l.val, dtype=float) for l in m.lbdas]))
        self.out.append(core.digest(*[x.trace for x in m.members + m.lbdas if 'trace' in x.__dict__]))

    def outputs(self):
        for ly in self.m.layers:
            if ly.size == 0:
                continue
            for t in ('factor_map', 'factor_mean', 'mc', 'point_estimate'):
                if ly.model in ('qL-AND', 'OR-AND-IBP') and t != 'point_estimate':
                    continue
                self.out.append(core.digest(np.asarray(ly.output(technique=t), dtype=float)))

    def run(self):
        self.build()
        self.infer()
        if self.s['again']:
            self.infer(1)
        self.outputs()
        return self.out


def main():
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    core.load()
    res = []
    for s in json.load(sys.stdin):
        with core.quiet():
            res.append(Scenario(s).run())
    print(json.dumps(res))


if __name__ == '__main__':
    main()
