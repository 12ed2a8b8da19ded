"""
An independent description of a machine (values, priors, dispersions, family structure), its exact
likelihood, and the monitor that judges observed updates of single entries against it.
"""
import itertools
import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api


class World(object):
    """
    mats:   name -> array;   prior: name -> P(entry on)
    layers: list of dict(child=name, factors=[names], model=, lbda=, q=)
    """

    def __init__(self):
        self.mats, self.prior, self.layers = {}, {}, []
        self.mask = {}       # name -> fixed-entries mask
        self.fixed = set()   # names of matrices held fixed

    def copy(self):
        w = World()
        w.mats = {k: v.copy() for k, v in self.mats.items()}
        w.prior = dict(self.prior)
        w.layers = [dict(l) for l in self.layers]
        w.mask = {k: v.copy() for k, v in self.mask.items()}
        w.fixed = set(self.fixed)
        return w

    def add_layer(self, child, factors, model, lbda, q=None):
        names = []
        for v in factors:
            n = 'f%d' % len(self.mats)
            self.mats[n] = v
            self.prior[n] = .5
            names.append(n)
        self.layers.append(dict(child=child, factors=names, model=model, lbda=lbda, q=q))
        return names

    # -- likelihood ---------------------------------------------------------------------------

    def layer_product(self, ly, fs, attribute=None):
        if ly['model'] == 'qL-AND':
            q = np.asarray(ly['q']).reshape(-1)
            if attribute is not None:       # only this attribute's row of the second factor is given
                q = q[attribute:attribute + 1]
            return ref.ql_product(fs[0], fs[1], q)
        if ly['model'] == 'OR-AND-IBP':
            return ref.product(fs, 'OR-AND')
        return ref.product(fs, ly['model'])

    def layer_loglik(self, ly, X, fs):
        if ly['model'] == 'MAX-AND':
            return ref.max_and_loglik(X, fs[0], fs[1], ly['lbda'])
        return ref.loglik(X, self.layer_product(ly, fs), ly['lbda'])

    def log_odds(self, name, row, col, *more):
        """exact conditional log-odds of entry (row, col, ...) of a matrix or tensor being on, given everything else"""
        p = self.prior[name]
        lo = 0. if p == .5 else float(ref.logit(p))
        exact_tie = p == .5
        for ly in self.layers:
            if name in ly['factors']:
                k = ly['factors'].index(name)
                X = np.moveaxis(self.mats[ly['child']], k, 0)[row:row + 1]
                X = np.moveaxis(X, 0, k)
                vals = []
                for v in (1, -1):
                    fs = [self.mats[n] for n in ly['factors']]
                    r = fs[k][row:row + 1].copy()
                    r[0, col] = v
                    fs[k] = r
                    vals.append((fs, X))
                if ly['model'] == 'MAX-AND':
                    d = (ref.max_and_loglik(X, vals[0][0][0], vals[0][0][1], ly['lbda']) -
                         ref.max_and_loglik(X, vals[1][0][0], vals[1][0][1], ly['lbda']))
                else:
                    s = []
                    for fs, _ in vals:
                        Y = self.layer_product(ly, fs, row if k == 1 else None)
                        s.append(int(((X == Y) & (X != 0)).sum()))
                    d = ly['lbda'] * (s[0] - s[1])
                lo += d
                exact_tie = exact_tie and d == 0
            if name == ly['child']:
                fs = [self.mats[n] for n in ly['factors']]
                y = ref.product([f[i:i + 1] for f, i in zip(fs, (row, col) + more)], ly['model']).item()
                lo += ly['lbda'] * y
                exact_tie = exact_tie and ly['lbda'] == 0
        return lo, exact_tie

    def joint(self):
        """log joint probability (up to a constant) of all matrices"""
        t = 0.
        for ly in self.layers:
            t += self.layer_loglik(ly, self.mats[ly['child']], [self.mats[n] for n in ly['factors']])
        for n, p in self.prior.items():
            on = int((self.mats[n] == 1).sum())
            off = int((self.mats[n] == -1).sum())
            with np.errstate(all='ignore'):
                t += (on * np.log(p) if on else 0.) + (off * np.log1p(-p) if off else 0.)
        return t

    # -- realisation as a lom machine ---------------------------------------------------------

    def realise(self, root='X', until=None):
        lom = core.load()
        m = lom.Machine()
        self.machine = m
        self.obj = {root: m.add_matrix(self.mats[root].copy(), fixed=root in self.fixed)}
        self.lobj = []
        for ly in (self.layers if until is None else self.layers[:until]):
            self.realise_layer(ly)
        self.push()
        return m

    def realise_layer(self, ly):
        L = self.mats[ly['factors'][0]].shape[1]
        lr = self.machine.add_layer(latent_size=L, child=self.obj[ly['child']], model=ly['model'])
        self.lobj.append(lr)
        for n, f in zip(ly['factors'], lr.factors):
            self.obj[n] = f

    def push(self):
        """write values, masks, priors, dispersions into the machine"""
        for n, o in self.obj.items():
            o.val = self.mats[n].copy()
            o.fixed = n in self.fixed
            if n in self.prior:
                o.bernoulli_prior = self.prior[n]
            o.fixed_entries = self.mask[n].astype(np.int8).copy() if n in self.mask else np.zeros(o.val.shape, dtype=np.int8)
        for ly, lr in zip(self.layers, self.lobj):
            v = ly['lbda']
            lr.lbda.val = np.array(v, dtype=float).copy() if np.ndim(v) else float(v)
            if ly['q'] is not None:
                lr.q.val = np.array(ly['q'], dtype=np.int8).reshape(1, -1).copy()
                self.q_fixed = bool(lr.q.fixed)     # as built
                lr.q.fixed = True

    def fix_lbdas(self, flag=True):
        for lr in self.lobj:
            lr.lbda.fixed = flag


class FlipMonitor(object):
    """
    Judges observed single-entry updates against the exact conditional log-odds:
      * odds of the flip >= 1            -> the entry must have flipped (certain)
      * odds of the flip below e^-25     -> it must not have flipped
      * otherwise                        -> flip frequency is accumulated, see calibrate()
    """

    def __init__(self, obs, label):
        self.obs, self.label = obs, label
        self.bins = {}

    def judge(self, world, name, before, after, where, margin=1e-6):
        """before/after: arrays; where: list of (row, col) free entries; world has the state before"""
        obs = self.obs
        for ix in where:
            ix = tuple(ix)
            lo, tie = world.log_odds(name, *ix)
            z, new = int(before[ix]), after[ix]
            flipped = int(new) == -z
            x = -z * lo                        # log-odds of the flip
            if np.isnan(x):
                continue
            info = lambda: '%s: entry %s=%d of %s, exact log-odds of +1 %.6g, after update %d' % (
                self.label, ix, z, name, lo, int(new))
            if new not in (-1, 1):
                obs.fail('domain', info())
            if x > margin or (tie and x == 0):
                obs.ok(flipped, 'must_flip', lambda: 'flip with odds >= 1 did not happen. ' + info())
                obs.count('must_flip')
                if abs(lo) > 0:
                    obs.count('must_flip_informative')
                if tie:
                    obs.count('ties')
            elif x < -25:
                obs.ok(not flipped, 'must_stay', lambda: 'flip with odds < e^-25 happened. ' + info())
                obs.count('must_stay')
            elif x < -margin:
                p = float(np.exp(x))
                b = (min(4, int(p * 5)), z)     # by probability and by current value
                s = self.bins.setdefault(b, [0, 0., 0., 0])
                s[0] += int(flipped)
                s[1] += p
                s[2] += p * (1 - p)
                s[3] += 1
                obs.evals += 1
                obs.count('chance_flips')
        return

    def zscores(self):
        out = {}
        tot = [0, 0., 0., 0]
        for b, s in self.bins.items():
            for i in range(4):
                tot[i] += s[i]
            if s[2] >= 10:
                out[b] = (s[0] - s[1]) / np.sqrt(s[2])
        if tot[2] >= 25:
            out['all'] = (tot[0] - tot[1]) / np.sqrt(tot[2])
        return out


def calibrated(obs, label, collect, z1=5., z2=6.):
    """
    collect(monitor, k) drives updates (k: repetition). Two stages: only if the flip frequencies of a first
    sample are off by more than z1 standard deviations, a second, independent one (4x) has to be off by z2.
    """
    mon = FlipMonitor(obs, label)
    collect(mon, 1)
    z = mon.zscores()
    obs.count('calibrations', len(z))
    off = {b for b, v in z.items() if abs(v) > z1}
    if off:
        mon2 = FlipMonitor(obs, label)
        collect(mon2, 4)
        zz = mon2.zscores()
        for b in off:
            if b in zz and abs(zz[b]) > z2 and np.sign(zz[b]) == np.sign(z[b]):
                s = mon2.bins[b] if b != 'all' else [sum(x[i] for x in mon2.bins.values()) for i in range(4)]
                obs.fail('frequency', '%s: %d of %d updates flipped, expected %.1f (z=%.1f)' % (label, s[0], s[3], s[1], zz[b]))
    return mon


def several_per_row(rng, shape, most=3):
    """mask with two or three free entries per row (fewer if there are not so many columns)"""
    mask = np.ones(shape, dtype=np.int8)
    for r in range(shape[0]):
        mask[r, rng.permutation(shape[1])[:int(rng.integers(2, most + 1))]] = 0
    return mask


def reachable(world, name, r, free, margin=1e-6):
    """
    values of row r after its free entries were each updated once, one after the other in some order, every update
    seeing the outcome of those before it; and the values it would have if each had seen only the start
    """
    m = world.mats[name]
    start = m[r].copy()

    def step(row, c):
        m[r] = row
        lo, tie = world.log_odds(name, r, c)
        x = -int(row[c]) * lo
        other = tuple(-v if i == c else v for i, v in enumerate(row))
        if x > margin or (tie and x == 0):
            return [other]
        return [row] if x < -25 else [row, other]
    out = set()
    try:
        for order in itertools.permutations(free):
            rows = {tuple(int(v) for v in start)}
            for c in order:
                rows = {s for row in rows for s in step(row, c)}
            out |= rows
        begin = tuple(int(v) for v in start)
        stale = {begin}
        for c in free:
            vals = {s[c] for s in step(begin, c)}
            stale = {tuple(v if i == c else x for i, x in enumerate(row)) for row in stale for v in vals}
    finally:
        m[r] = start
    return out, stale


def judge_rows(obs, world, name, before, after, label, margin=1e-6):
    """rows with several free entries: the outcome of updating them one by one; world has the state before"""
    for r in range(len(before)):
        free = [int(c) for c in np.nonzero(world.mask[name][r] == 0)[0]]
        if len(free) < 2:
            continue
        ok, stale = reachable(world, name, r, free, margin)
        obs.ok(tuple(int(v) for v in after[r]) in ok, 'one_by_one', lambda: '%s: row %d of %s was %s with entries %s free and became %s; updating them one '
               'after the other, with exact odds, leads to one of %s' % (label, r, name, before[r].tolist(), free, np.asarray(after[r]).tolist(), sorted(ok)))
        obs.count('rows_one_by_one')
        obs.count('rows_depending_on_earlier_updates', not stale & ok)


def one_per_row(rng, shape):
    """mask with exactly one free entry per row; returns (mask, list of free entries)"""
    mask = np.ones(shape, dtype=np.int8)
    where = []
    for r in range(shape[0]):
        c = int(rng.integers(shape[1]))
        mask[r, c] = 0
        where.append((r, c))
    return mask, where


def both_ways(k, n, p):
    """two-sided tail of k successes among n with probability p (Chernoff bounds, so never too small)"""
    if p <= 0 or p >= 1:
        return 1. if k == n * p else 0.
    f = k / float(n)
    if f == p:
        return 1.
    d = (f * np.log(f / p) if f > 0 else 0.) + ((1 - f) * np.log((1 - f) / (1 - p)) if f < 1 else 0.)
    return float(2 * np.exp(-n * d))


def together(obs, world, name, where, update, label, R=200, most=25):
    """
    Repeats one update from the same state; entries that do not depend on each other (one per row, everything else
    fixed) must flip independently of each other and of the previous repetition.
    """
    before = world.mats[name].copy()
    cand = []
    for r, c in where:
        x = -int(before[r, c]) * world.log_odds(name, r, c)[0]
        if -2. < x < -.2:
            cand.append((r, c, float(np.exp(x))))
    cand = cand[:most]
    if not cand:
        return
    F = np.empty((R, len(cand)), dtype=bool)
    for i in range(R):
        world.mats[name] = before.copy()
        after = update()
        F[i] = [after[r, c] != before[r, c] for r, c, p in cand]
    world.mats[name] = before
    at = lambda a: 'entry %s of %s (flip probability %.3g)' % (cand[a][:2], name, cand[a][2])
    for a in range(len(cand)):
        for b in range(a):
            k = int((F[:, a] == F[:, b]).sum())
            q = cand[a][2] * cand[b][2] + (1 - cand[a][2]) * (1 - cand[b][2])
            obs.ok(both_ways(k, R, q) > 1e-9, 'independence', lambda: '%s: %s and %s did the same in %d of %d updates, expected %.1f' % (label, at(a), at(b), k, R, q * R))
            obs.count('pairs_of_entries')
        k, q = int((F[:R // 2 * 2:2, a] == F[1::2, a]).sum()), cand[a][2] ** 2 + (1 - cand[a][2]) ** 2
        obs.ok(both_ways(k, R // 2, q) > 1e-9, 'independence', lambda: '%s: %s did the same in two successive updates %d of %d times, expected %.1f' % (label, at(a), k, R // 2, q * R / 2))
        obs.count('successive_updates')
