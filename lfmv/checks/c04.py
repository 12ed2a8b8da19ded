import math
import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.world import World

PROPERTY = 'C04'
RULE = ('one case = one tiny machine (model, 2D/3D, MAX-AND, qL-AND with free thresholds, two-layer hierarchy, free data matrix; random data with '
        'missing entries, priors, partly fixed factors, fixed dispersions) whose joint posterior over all free entries '
        'is enumerated (at most 2^9 states). Thousands of exact posterior draws are each moved by k sweeps of '
        'Machine.infer; final states are compared with the posterior by chi-square, in two independent stages '
        '(p<1e-4, then p<1e-6 on 3x the sample). Evaluations = runs; distinct non-trivial = distinct (machine, final '
        'state) pairs visited.')
REQUIRED = {'chains': 20000, 'machines': 20, 'hierarchies': 4, 'max_and': 2, 'counting': 3, 'bins': 100}


def cases(tier, seed):
    out = []
    for r in range(1 if tier == 'quick' else 6):
        for m in ref.EIGHT:
            out.append({'kind': '2d', 'model': m, 'seed': [seed, r]})
            out.append({'kind': '3d', 'model': m, 'seed': [seed, r]})
        for i in range(3):
            out.append({'kind': 'ql', 'model': 'qL-AND', 'seed': [seed, r, i]})
        rng = util.rng_of('c04', seed, r)
        for i in range(4):
            out.append({'kind': 'max', 'model': 'MAX-AND', 'seed': [seed, r, i]})
        for i in range(8):
            a, b, c = [ref.EIGHT[int(k)] for k in rng.integers(8, size=3)]
            out.append({'kind': ['hier', 'freedata', 'hier2', 'hier'][i % 4], 'models': [a, b, c], 'seed': [seed, r, i]})
    for c in out:
        c['M'] = 2000 if tier == 'quick' else 8000
        c['sweeps'] = 5
    return out


def make(rng, case):
    w = World()
    k = case['kind']
    lam = lambda: float(rng.choice([.4, .8, 1.2, 2.]))
    mat = lambda *s: util.pm(rng, s, .5)
    if k == '2d' or k == 'max':
        N, D, L = [(2, 2, 2), (1, 3, 2), (2, 1, 2), (1, 2, 3)][int(rng.integers(4))]
        if k == 'max' and L == 1:
            L = 2
        w.mats['X'] = util.data(rng, (N, D), .5, rng.choice([0, .2]))
        lbda = lam() if k == '2d' else rng.uniform(.05, .95, L + 1)
        if k == 'max' and rng.random() < .3:
            lbda[1] = lbda[0]
        w.add_layer('X', [mat(N, L), mat(D, L)], case['model'], lbda)
        w.fixed = {'X'}
    elif k == 'ql':
        N, D, L = [(2, 1, 2), (2, 1, 3), (1, 2, 2), (3, 1, 2)][int(rng.integers(4))]
        w.mats['X'] = util.data(rng, (N, D), .5, rng.choice([0, .2]))
        w.add_layer('X', [mat(N, L), mat(D, L)], 'qL-AND', lam(), q=rng.integers(1, 6, size=D))
        w.layers[0]['gamma'] = float(rng.choice([1., .5, 2.5]))
        w.fixed = {'X'}
    elif k == '3d':
        ds, L = [((2, 1, 1), 2), ((1, 2, 1), 2), ((1, 1, 2), 2), ((2, 2, 2), 1), ((3, 2, 1), 1)][int(rng.integers(5))]
        w.mats['X'] = util.data(rng, ds, .5, rng.choice([0, .2]))
        w.add_layer('X', [mat(d, L) for d in ds], case['model'], lam())
        w.fixed = {'X'}
    elif k == 'freedata':
        # data matrix without child is sampled, too, from one or two parent layers
        w.mats['X'] = mat(2, 1)
        w.prior['X'] = .5
        w.add_layer('X', [mat(2, 1), mat(1, 1)], case['models'][0], lam())
        if rng.random() < .6:
            w.add_layer('X', [mat(2, 1), mat(1, 1)], case['models'][1], lam())
    else:
        N, D, L, Q = 2, 1, 1, 1
        if rng.random() < .5:
            N, D, L, Q = 1, 1, 2, 1
        w.mats['X'] = util.data(rng, (N, D), .5, 0)
        f = w.add_layer('X', [mat(N, L), mat(D, L)], case['models'][0], lam())
        n, l = w.mats[f[0]].shape
        w.add_layer(f[0], [mat(n, Q), mat(l, Q)], case['models'][1], lam())
        if k == 'hier2':
            w.add_layer(f[0], [mat(n, 1), mat(l, 1)], case['models'][2], lam())
        w.fixed = {'X'}
    if k not in ('max', 'ql'):
        for n in w.prior:
            w.prior[n] = float(rng.choice([.5, .5, .3, .7, .85]))
    # pin entries: until small enough, and sometimes more
    free = [(n, i) for n in w.mats if n not in w.fixed for i in np.ndindex(*w.mats[n].shape)]
    nb = min(len(free), 9 if rng.random() < .7 else 6)
    if k == 'ql':
        nb = min(nb, 6 if D == 1 else 4)
    keep = set(rng.permutation(len(free))[:nb].tolist())
    for n in w.mats:
        if n not in w.fixed:
            w.mask[n] = np.zeros(w.mats[n].shape, dtype=np.int8)
    for j, (n, i) in enumerate(free):
        if j not in keep:
            w.mask[n][i] = 1
    return w, [free[j] for j in sorted(keep)]


def run(case, obs):
    rng = util.rng_of('c04', case)
    w, bits = make(rng, case)
    B = len(bits)
    v = w.copy()
    counting = case['kind'] == 'ql'
    D = w.mats['X'].shape[1] if counting else 0
    S = 2 ** B * 5 ** D         # states: free entries, then thresholds 1..5 of every attribute
    logp = np.zeros(S)

    def thresholds(s):
        return [(s >> B) // 5 ** d % 5 + 1 for d in range(D)]
    for s in range(S):
        for j, (n, i) in enumerate(bits):
            v.mats[n][i] = 1 if (s >> j) & 1 else -1
        if counting:
            v.layers[0]['q'] = np.array(thresholds(s))
        logp[s] = v.joint()
        if counting:
            g = w.layers[0]['gamma']
            logp[s] += sum(q * math.log(g) - math.lgamma(q + 1) for q in thresholds(s))
    post = np.exp(logp - logp.max())
    post /= post.sum()
    with Api('building %s' % case):
        w.realise()
    w.fix_lbdas()
    label = '%s %s' % (case['kind'], case.get('model', case.get('models')))
    if counting:
        lr = w.lobj[0]
        lr.q.fixed = w.q_fixed
        lr.gamma = w.layers[0]['gamma']
    base = {n: a.copy() for n, a in w.mats.items()}
    pinned_seen = set()

    def sample(M):
        counts = np.zeros(S, dtype=int)
        start = rng.choice(S, size=M, p=post)
        for s in start:
            for j, (n, i) in enumerate(bits):
                base[n][i] = 1 if (s >> j) & 1 else -1
            for n, o in w.obj.items():
                if n not in w.fixed:
                    o.val = base[n].copy()
            if counting:
                lr.q.val = np.array([thresholds(s)], dtype=np.int8)
            with Api('Machine.infer on %s' % label):
                util.sweeps(w.machine, case['sweeps'])
            e = 0
            for j, (n, i) in enumerate(bits):
                e |= int(w.obj[n].val[i] == 1) << j
            if counting:
                q = np.asarray(lr.q()).ravel()
                if not all(1 <= x <= 5 for x in q):
                    obs.fail('domain', 'qL-AND: thresholds %s' % q.tolist())
                e += sum((int(x) - 1) * 5 ** d for d, x in enumerate(q)) << B
            counts[e] += 1
            for n, mask in w.mask.items():
                if (np.asarray(w.obj[n].val)[mask == 1] != base[n][mask == 1]).any():
                    obs.fail('fixed', '%s: pinned entries changed' % label)
        obs.evals += M
        obs.count('chains', M)
        return counts

    c = sample(case['M'])
    p, nb = ref.chisq_p(c, case['M'] * post)
    obs.count('machines')
    obs.count('bins', nb)
    obs.count('hierarchies', 'models' in case)
    obs.count('counting', counting)
    obs.count('max_and', case['kind'] == 'max')
    for s in np.nonzero(c)[0]:
        obs.saw(case, int(s))
    if p < 1e-4:
        obs.count('second_stage')
        M2 = case['M'] * 3
        c2 = sample(M2)
        p2, _ = ref.chisq_p(c2, M2 * post)
        if p2 < 1e-6:
            k = int(np.argmax(np.abs(c2 - M2 * post) / np.sqrt(M2 * post + 1)))
            obs.fail('not_invariant', '%s: posterior is not invariant under %d sweeps: chi-square p=%.3g then %.3g; '
                     'e.g. state %d has posterior probability %.4f, frequency %.4f' % (
                         label, case['sweeps'], p, p2, k, post[k], c2[k] / M2))
    obs.sample = {'machine': label, 'shapes': {n: list(a.shape) for n, a in w.mats.items()}, 'free_entries': B,
                  'lbda': [np.round(np.atleast_1d(ly['lbda']), 3).tolist() for ly in w.layers], 'chi2_p': round(p, 4), 'bins': nb}
