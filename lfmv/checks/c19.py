import math
import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.tap import Tap
from lfmv.world import World, FlipMonitor

PROPERTY = 'C19'
RULE = ('three kinds of cases. run: OR-AND-IBP machines (random, all-on, all-off, missing data, extreme dispersion and concentration, '
        'any initial latent size) are inferred repeatedly with every update bracketed by a tap that checks shapes, domain, usage and '
        'records states; traces and outputs are compared with the record. law: machines in a chosen state (distinct columns) run one '
        'sweep; each row update is reconstructed from the states around the row factor\'s update, entries of existing and new columns '
        'are judged against exact odds. dishes: the number of columns introduced by a row that no shared column explains is '
        'compared with its exact law. Distinct non-trivial = distinct states after an update.')
REQUIRED = {'row_updates': 1500, 'columns_added': 300, 'columns_removed': 300, 'trace_entries': 1000, 'outputs': 200, 'certain_draws': 300,
            'chance_draws': 5000, 'changed_use': 2000, 'new_column_draws': 500, 'paired_column_draws': 5000, 'second_factor_flips': 500, 'inferences': 150, 'grew_during_sampling': 30, 'padded_entries': 100, 'grew_by_many': 1, 'wide': 30, 'many_columns': 20, 'hundreds_uncovered': 10, 'large': 3, 'new_column_numbers': 800, 'certain_numbers': 100, 'changed_concentration': 150}


def cases(tier, seed):
    out = []
    for r in range(1 if tier == 'quick' else 16):
        for i in range(24):
            out.append({'kind': 'run', 'seed': [seed, r, i]})
        for i in range(8):
            out.append({'kind': 'law', 'seed': [seed, r, i]})
        for i in range(4):
            out.append({'kind': 'dishes', 'seed': [seed, r, i]})
    return out


def make(rng, X, L, lbda, alpha):
    with Api('building an OR-AND-IBP machine'):
        m, d, lr = util.build(X, L, 'OR-AND-IBP')
        if alpha is not None:
            lr.alpha = alpha
        lr.lbda.val = lbda
    return m, d, lr


def consistent(obs, lr, what, used):
    Z, U = lr.factors[0].val, lr.factors[1].val
    X = lr.child.val
    obs.ok(Z.ndim == 2 and U.ndim == 2 and Z.shape[1] == U.shape[1], 'columns', lambda: '%s: factors have shapes %s and %s' % (what, Z.shape, U.shape))
    obs.ok((Z.shape[0], U.shape[0]) == X.shape, 'rows', lambda: '%s: factors %s, %s for data %s' % (what, Z.shape, U.shape, X.shape))
    obs.ok(Z.dtype == np.int8 and U.dtype == np.int8, 'type', lambda: '%s: types %s, %s' % (what, Z.dtype, U.dtype))
    obs.ok(bool((np.abs(Z) == 1).all() and (np.abs(U) == 1).all()), 'domain', lambda: '%s: values %s' % (what, np.union1d(Z, U)))
    obs.ok(all(f.fixed_entries.shape == f.val.shape for f in lr.factors), 'masks', what + ': fixed-entry masks do not fit the factors')
    obs.ok(lr.size == Z.shape[1], 'size', what + ': layer size')
    if used:
        obs.ok(bool((Z == 1).any(axis=0).all()), 'unused_column', lambda: '%s: columns %s are used by no row' % (what, np.flatnonzero(~(Z == 1).any(axis=0))))


def run_case(case, obs):
    rng = util.rng_of('c19', case)
    for trial in range(5):
        N, D = util.dims(rng, 2, 1, 9)
        kind = int(rng.integers(6))
        X = util.data(rng, (N, D), [.5, .2, .8, 1., 0., .5][kind], [0, .2, 0, 0, 0, .6][kind])
        if rng.random() < .4:
            X = ref.product([util.pm(rng, (N, 3), .4), util.pm(rng, (D, 3), .4)], 'OR-AND').astype(np.int8)
        L = int(rng.choice([1, 1, 2, 3, 5, 8]))
        lbda = float(rng.choice([0., .05, .5, 1., 2., 6., 30.]))
        alpha = [None, .1, 1., 3., 20.][int(rng.integers(5))]
        if case['seed'][-1] % 4 == 0 and trial == 0:       # many new columns while sampling
            N, D, L, lbda, alpha = 40, 12, 1, 6., 20.
            X = util.data(rng, (N, D), .4)
        if case['seed'][-1] % 4 == 1 and trial == 0:       # many rows or columns
            N, D = [(150, 3), (3, 150)][int(rng.integers(2))]
            X = util.data(rng, (N, D), .4, rng.choice([0, .2]))
            alpha = min(alpha or 1., 3.)
            obs.count('large')
        label = 'OR-AND-IBP %dx%d, initial L=%d, lbda %g, alpha %s' % (N, D, L, lbda, alpha)
        m, d, lr = make(rng, X, L, lbda, alpha)
        lr.lbda.fixed = bool(rng.random() < .4)
        for rep in range(int(rng.integers(1, 4))):
            S = int(rng.choice([1, 2, 5, 9]))
            kw = dict(burn_in_min=int(rng.integers(0, 3)), burn_in_max=int(rng.integers(0, 5)), no_samples=S, convergence_window=3)
            if N == 40 and rep == 0:
                kw.update(burn_in_min=0, burn_in_max=0)
            states = []
            names = {id(lr.factors[0]): 0, id(lr.factors[1]): 1}
            prev = [lr.factors[0].val.shape[1]]

            def after(k, x):
                what = label + ', update %d' % (len(states) + 1)
                is_row = k == 'm' and names[id(x)] == 0
                consistent(obs, lr, what, is_row)
                c = lr.factors[0].val.shape[1]
                if is_row:
                    obs.count('row_updates')
                    obs.count('columns_added', c > prev[0])
                    obs.count('columns_removed', c < prev[0])
                    obs.saw(core.digest(lr.factors[0].val, lr.factors[1].val))
                else:
                    obs.ok(c == prev[0], 'columns', what + ': another update than that of the first factor changed the number of columns')
                prev[0] = c
                states.append((np.array(lr.factors[0].val), np.array(lr.factors[1].val), float(lr.lbda.val)))
            start = lr.factors[0].val.shape[1]
            tap = Tap(m, after=after).install()
            with Api('Machine.infer, %s, %s' % (label, kw)):
                m.infer(**kw)
            tap.remove()
            obs.count('inferences')
            obs.ok(np.array_equal(d.val, X), 'data', label + ': data changed')
            n = 2 + (not lr.lbda.fixed)
            obs.ok(len(states) >= n * S and len(states) % n == 0, 'sweeps', '%s: %d updates' % (label, len(states)))
            first = len(states) - n * S
            # states at the time the factors are recorded: after both factors of sweep t
            rec = [states[first + n * t + 1] for t in range(S)]
            end = [states[first + n * t + n - 1] for t in range(S)]
            for k, f in enumerate(lr.factors):
                tr = np.asarray(f.trace)
                obs.ok(tr.ndim == 3 and tr.shape[:2] == (S, f.val.shape[0]) and tr.dtype == np.int8, 'trace_shape', lambda: '%s: trace of factor %d: %s %s' % (label, k, tr.shape, tr.dtype))
                for t in range(S):
                    v = rec[t][k]
                    obs.ok(tr.shape[2] >= v.shape[1] and np.array_equal(tr[t][:, :v.shape[1]], v), 'trace', lambda: '%s: entry %d of the trace of factor %d is not the state after that sweep' % (label, t, k))
                    obs.ok(bool((tr[t][:, v.shape[1]:] == -1).all()), 'padding', lambda: '%s: absent columns in entry %d of the trace of factor %d are not off' % (label, t, k))
                    obs.count('padded_entries', tr.shape[2] > v.shape[1])
                    obs.count('trace_entries')
                obs.ok(np.array_equal(f.val, rec[-1][k]), 'last', label + ': current state is not the last sample')
            obs.ok(lr.factors[0].trace.shape[2] == lr.factors[1].trace.shape[2], 'trace_shape', label + ': traces of the factors have different widths')
            if n == 3:
                lt = np.asarray(lr.lbda.trace)
                obs.ok(lt.shape == (S,) and np.allclose(lt, [e[2] for e in end], rtol=1e-6, atol=1e-6), 'trace', label + ': dispersion trace')
            obs.count('grew_by_many', rec[-1][0].shape[1] > start + 10)
            obs.count('grew_during_sampling', max(r[0].shape[1] for r in rec) > min(r[0].shape[1] for r in rec))
            judge_output(obs, rng, lr, rec, label)
            if rng.random() < .2 and lr.factors[0].val.shape[1]:
                lr.lbda.val = float(rng.choice([.5, 4.]))
    obs.sample = {'label': label, 'samples': S, 'columns_per_sample': [int(r[0].shape[1]) for r in rec]}


def judge_output(obs, rng, lr, rec, label):
    on = lambda fs: (ref.product(fs, 'OR-AND') + 1) / 2.
    fs = [f.val for f in lr.factors]
    empty = np.zeros(lr.child.val.shape)
    mean = [np.asarray(f.trace).astype(float).mean(axis=0) for f in lr.factors]
    want = {'point_estimate': [on(fs) if fs[0].shape[1] else empty],
            'factor_mean': [ref.p_product([(x + 1) / 2. for x in mean], 'OR-AND')],
            'factor_map': [on([np.where(x == 0, tie, np.sign(x)).astype(int) for x in mean]) for tie in (-1, 1)],
            'mc': [sum(on(r[:2]) if r[0].shape[1] else empty for r in rec) / len(rec)]}
    snap = core.digest(*[f.val for f in lr.factors] + [f.trace for f in lr.factors])
    for tech, es in want.items():
        if tech == 'point_estimate' and not fs[0].shape[1]:
            continue
        with Api('%s: output(%s)' % (label, tech)):
            o = np.asarray(lr.output(technique=tech), dtype=float)
        obs.ok(o.shape == lr.child.val.shape, 'output_shape', lambda: '%s: output(%s) has shape %s' % (label, tech, o.shape))
        obs.ok(bool(((o >= -1e-9) & (o <= 1 + 1e-9)).all()), 'output_range', lambda: '%s: output(%s) in %s..%s' % (label, tech, o.min(), o.max()))
        obs.ok(any(np.allclose(o, e, rtol=0, atol=3e-6) for e in es), 'output:' + tech, lambda: '%s: output(%s) %s' % (label, tech, util.diff_at(o, es[0])))
        obs.ok(lr.model == 'OR-AND-IBP', 'model_name', '%s: the layer became a %s layer' % (label, lr.model))
        obs.count('outputs')
    obs.ok(snap == core.digest(*[f.val for f in lr.factors] + [f.trace for f in lr.factors]), 'purity', label + ': output changed states or traces')


# ---- law of the row factor's update -----------------------------------------------------------

class Freq(object):
    """frequencies of Gibbs draws against their exact probabilities"""

    def __init__(self):
        self.s = {}

    def add(self, kind, p, on):
        s = self.s.setdefault(kind, [0, 0., 0.])
        s[0] += int(on)
        s[1] += p
        s[2] += p * (1 - p)

    def z(self):
        return {k: (s[0] - s[1]) / np.sqrt(s[2]) for k, s in self.s.items() if s[2] >= 20}


def covered(z, U, skip=None):
    """which data entries of a row are switched on by the row z (skip: ignoring one column)"""
    z = z.copy()
    if skip is not None:
        z[skip] = -1
    return ((U == 1) & (z == 1)[None, :]).any(axis=1)


def reconstruct(Z0, U0, Z1, U1):
    """
    surviving columns keep their order and their second-factor column (columns of U0 are distinct):
    returns list of old columns surviving, or None when ambiguous
    """
    old = [U0[:, l].tobytes() for l in range(U0.shape[1])]
    new = [U1[:, l].tobytes() for l in range(U1.shape[1])]
    if len(set(old)) < len(old):
        return None
    keep = []
    for c in new:
        if c in old and (not keep or old.index(c) > keep[-1]):
            if len(keep) < new.index(c):
                return None
            keep.append(old.index(c))
        else:
            break
    if any(c in old for c in new[len(keep):]):
        return None
    return keep


def lg(k):
    return math.lgamma(k + 1)


def dish_likelihood(x, cov, lbda):
    """log-likelihood of a row's uncovered cells given 0, 1, 2 new columns whose second-factor entries are fair coins"""
    tn, fn = int((x[~cov] == -1).sum()), int((x[~cov] == 1).sum())
    off = [.5 ** k for k in range(3)]
    return [tn * np.log(ref.expit(lbda) * o + ref.expit(-lbda) * (1 - o)) + fn * np.log(ref.expit(-lbda) * o + ref.expit(lbda) * (1 - o))
            for o in off]


def judge_rows(obs, freq, Z0, U0, X, lbda, Z1, U1, label, alpha):
    N, L0 = Z0.shape
    keep = reconstruct(Z0, U0, Z1, U1)
    if keep is None:
        obs.count('ambiguous_reconstructions')
        return
    k = len(keep)
    # row at which every other column has been removed: all later rows off, no earlier row has been switched on
    gone = {}
    for l in set(range(L0)) - set(keep):
        rows = [r for r in range(N) if (Z0[r + 1:, l] == -1).all()]
        gone[l] = rows[0]       # at the latest the last row
    obs.count('reconstructions')
    freq.all = getattr(freq, 'all', 0) + 1
    for j, l in enumerate(keep):
        others = [(np.concatenate([Z1[:n, j], Z0[n + 1:, l]]) == 1).any() for n in range(N)]
        if not all(others):
            # either it was not removed when it should have been, or a new column happens to have the same second-factor column
            freq.unclear = getattr(freq, 'unclear', 0) + 1
            obs.count('ambiguous_reconstructions')
            return
    # row which introduced each new column
    birth = []
    for j in range(k, Z1.shape[1]):
        on = np.flatnonzero(Z1[:, j] == 1)
        obs.ok(len(on) > 0, 'unused_column', label + ': a new column is used by no row')
        birth.append(int(on[0]))
    obs.ok(birth == sorted(birth), 'new_order', lambda: '%s: new columns were introduced by rows %s' % (label, birth))
    obs.ok(all(birth.count(b) <= 2 for b in birth), 'too_many', lambda: '%s: new columns were introduced by rows %s' % (label, birth))
    for n in range(N):
        # columns present when row n is drawn, in order: (values before, values after, second factor, users among other rows)
        cols = []
        blur = False
        for l in range(L0):
            if l in gone:
                if gone[l] < n:
                    continue
                last = gone[l] == n
                a = -1
                others = 0 if last else int((Z0[n + 1:, l] == 1).sum())
                cols.append((Z0[n, l], None if last else a, U0[:, l], others, others))
                blur = blur or (last and Z0[n, l] == 1)
            else:
                j = keep.index(l)
                others = int((np.concatenate([Z1[:n, j], Z0[n + 1:, l]]) == 1).sum())
                cols.append((Z0[n, l], Z1[n, j], U0[:, l], others, int((np.delete(Z0[:, l], n) == 1).sum())))
        for j, b in zip(range(k, Z1.shape[1]), birth):
            if b < n:
                cols.append((-1, Z1[n, j], U1[:, j], int((Z1[:n, j] == 1).sum()), 1))
        if not cols and not any(b == n for b in birth):
            continue
        UU = np.array([c[2] for c in cols]).T if cols else np.zeros((U0.shape[0], 0))
        row = np.array([c[0] for c in cols], dtype=int)
        if not blur:
            for i, (z0, z1, u, users, earlier) in enumerate(cols):
                if z1 is None:
                    continue
                cov = covered(row, UU, i)
                score = int(X[n][(u == 1) & ~cov].sum())
                lo = lbda * score + float(np.log(users) - np.log(N - users))
                info = lambda: '%s: row %d, column %d: score %d, used by %d of %d rows, log-odds %.4g, became %d' % (label, n, i, score, users, N, lo, z1)
                if abs(lo) > 27:
                    obs.ok((z1 == 1) == (lo > 0), 'certain_draw', info)
                    obs.count('certain_draws')
                else:
                    p = float(ref.expit(lo))
                    freq.add('existing', p, z1 == 1)
                    freq.add('existing, score %s' % ('0' if score == 0 else '+' if score > 0 else '-'), p, z1 == 1)
                    freq.add('existing, %s users' % ('one' if users == 1 else 'most' if 2 * users > N else 'few'), p, z1 == 1)
                    if users != earlier:    # rows drawn earlier in this sweep have changed its use
                        freq.add('existing, %s users than before the sweep' % ('more' if users > earlier else 'fewer'), p, z1 == 1)
                        obs.count('changed_use')
                    obs.count('chance_draws')
                row[i] = z1
            obs.evals += len(cols)
        mine = [j for j, b in zip(range(k, Z1.shape[1]), birth) if b == n]
        final = np.array([-1 if c[1] is None else c[1] for c in cols], dtype=int)
        cov = covered(final, UU) if len(cols) else np.zeros(X.shape[1], dtype=bool)
        # the number of new columns, as far as it is certain under a prior on new as well as on all columns
        ll = dish_likelihood(X[n], cov, lbda)
        have = sum(c[1] is not None for c in cols)
        ratio = [min(ll[b] + (b - len(mine)) * np.log(alpha / N) - (lg(h + b) - lg(h + len(mine))) for h in (0, have)) -
                 ll[len(mine)] for b in range(3)]
        obs.ok(max(ratio) < 27, 'new_columns', lambda: '%s: row %d introduced %d columns, log-odds of another number %.4g' % (label, n, len(mine), max(ratio)))
        obs.count('certain_numbers', sum(-max(ll[b] + (b - len(mine)) * np.log(alpha / N) - (lg(h + b) - lg(h + len(mine))) - ll[len(mine)]
                                              for h in (0, have)) > 27 for b in range(3)) >= 1)
        if len(mine) == 1:
            for dd in range(X.shape[1]):
                score = 0 if cov[dd] else int(X[n, dd])
                p = float(ref.expit(lbda * score))
                on = U1[dd, mine[0]] == 1
                if lbda * abs(score) > 27:
                    obs.ok(on == (score > 0), 'certain_draw', lambda: '%s: row %d introduced a column whose entry %d is %s against log-odds %g' % (label, n, dd, on, lbda * score))
                    obs.count('certain_draws')
                else:
                    freq.add('new column, score %d' % score, p, on)
                obs.count('new_column_draws')
        if len(mine) == 2:      # the second one is drawn given the first one
            for dd in range(X.shape[1]):
                first, second = [U1[dd, j] == 1 for j in mine]
                s = 0 if cov[dd] else int(X[n, dd])
                for which, on, score in (('first', first, s), ('second', second, 0 if first else s)):
                    if lbda * abs(score) > 27:
                        obs.ok(on == (score > 0), 'certain_draw', lambda: '%s: row %d introduced two columns, entry %d of the %s is %s against log-odds %g' % (
                            label, n, dd, which, on, lbda * score))
                    else:
                        freq.add('%s of two new columns, score %d' % (which, score), float(ref.expit(lbda * score)), on)
                    obs.count('paired_column_draws')


def law_once(obs, rng, freq, flips, lbda, wide=False):
    N, D = int(rng.integers(3, 8)), int(rng.integers(8, 12))
    L = int(rng.choice([1, 2, 3, 4]))
    if wide:        # more than 127 cells per entry
        N, D, L = (4, 400, 1) if rng.random() < .5 else (300, 4, 1)
    Z0 = util.pm(rng, (N, L), rng.choice([.3, .6, .9]))
    U0 = util.pm(rng, (D, L), rng.choice([.3, .5]))
    if wide:
        Z0, U0 = util.pm(rng, (N, L), .7), util.pm(rng, (D, L), .9)
        X = util.data(rng, (N, D), rng.choice([.05, .95]))
        if D == 400 and rng.random() < .7:      # hundreds of cells no column covers
            D = int(rng.choice([400, 560]))
            X, U0 = util.data(rng, (N, D), .93), util.pm(rng, (D, L), .1)
            if rng.random() < .6:       # numbers of uncovered active cells just above a multiple of 256
                D, U0 = 310, -np.ones((310, L), dtype=np.int8)
                X = np.array([rng.permutation([1] * k + [-1] * (D - k)) for k in rng.integers(256, 268, N)], dtype=np.int8)
            lbda = float(rng.choice([1.5, 4.]))
            obs.count('hundreds_uncovered')
        if rng.random() < .5:       # many columns that explain little
            N, D, L = int(rng.integers(3, 6)), 60, int(rng.choice([12, 14, 20]))
            Z0, U0 = util.pm(rng, (N, L), .7), util.pm(rng, (D, L), .05)
            X = util.data(rng, (N, D), .9)
            lbda = max(lbda, 4.)
            obs.count('many_columns')
    elif rng.random() < .5:
        X = ref.product([Z0, U0], 'OR-AND').astype(np.int8)
        X[rng.random(X.shape) < .25] *= -1
    else:
        X = util.data(rng, (N, D), .3)
    if X.shape[1] != 310:
        X[rng.random(X.shape) < rng.choice([0, .3])] = 0
    alpha = float(rng.choice([.05, .5, 3., 12.]))
    m, d, lr = make(rng, X, L, lbda, alpha)
    for f, v in zip(lr.factors, (Z0, U0)):
        f.val = v.copy()
        f.fixed_entries = np.zeros(v.shape, dtype=np.int8)
    lr.lbda.fixed = True
    label = 'OR-AND-IBP %dx%d L=%d lbda %g alpha %g' % (N, D, L, lbda, alpha)
    st = {}

    def before(kind, x):
        st['Z'], st['U'] = np.array(lr.factors[0].val), np.array(lr.factors[1].val)
        if x is lr.factors[1] and x.val.shape[1]:
            # a random single free entry per row: its flips do not depend on the order of updates
            st['where'] = [(r, int(rng.integers(x.val.shape[1]))) for r in range(x.val.shape[0])]
            x.fixed_entries = np.ones(x.val.shape, dtype=np.int8)
            for r, c in st['where']:
                x.fixed_entries[r, c] = 0

    def after(kind, x):
        Z, U = lr.factors[0].val, lr.factors[1].val
        consistent(obs, lr, label, x is lr.factors[0])
        if x is lr.factors[0]:
            judge_rows(obs, freq, st['Z'], st['U'], X, lbda, np.array(Z), np.array(U), label, alpha)
            obs.count('row_updates')
            obs.count('columns_added', Z.shape[1] > st['Z'].shape[1])
            obs.count('columns_removed', Z.shape[1] < st['Z'].shape[1])
            obs.saw(core.digest(Z, U))
        elif x.val.shape[1]:
            w = World()
            w.mats['X'] = X
            w.add_layer('X', [st['Z'], st['U']], 'OR-AND-IBP', lbda)
            obs.ok(np.array_equal(Z, st['Z']), 'first_factor', label + ': the update of the second factor changed the first')
            n0 = obs.evals
            flips.judge(w, 'f2', st['U'], np.array(U), st['where'])
            obs.count('second_factor_flips', obs.evals - n0)
            x.fixed_entries = np.zeros(x.val.shape, dtype=np.int8)
    tap = Tap(m, before=before, after=after).install()
    with Api('one sweep of ' + label):
        util.sweeps(m, 1)
    tap.remove()
    obs.ok(np.array_equal(d.val, X), 'data', label + ': data changed')


def law_case(case, obs):
    rng = util.rng_of('c19law', case)

    def collect(times):
        freq = Freq()
        flips = FlipMonitor(obs, 'OR-AND-IBP second factor')
        for i in range(400 * times):
            law_once(obs, rng, freq, flips, float(rng.choice([0., 0., .3, .8, 1.5, 4., 12., 40.])))
        for i in range(10 * times):
            law_once(obs, rng, freq, flips, float(rng.choice([.3, .8, 4.])), wide=True)
            obs.count('wide')
        z = freq.z()
        z.update({'flip %s' % (k,): v for k, v in flips.zscores().items()})
        return freq, z
    freq, z = collect(1)
    n, total = getattr(freq, 'unclear', 0), getattr(freq, 'all', 0)
    obs.ok(n < 8 or n < .15 * total, 'kept_unused', lambda: 'in %d of %d updates a column survived although no other row used it when a row was drawn' % (n, total))
    obs.count('calibrations', len(z))
    off = [k for k, v in z.items() if abs(v) > 4.5]
    if off:
        freq2, z2 = collect(4)
        for k in off:
            if abs(z2.get(k, 0)) > 6 and np.sign(z2[k]) == np.sign(z[k]):
                s = freq2.s.get(k, [0, 0, 0])
                obs.fail('frequency', 'draws of kind "%s": %d on, expected %.1f (z=%.1f)' % (k, s[0], s[1], z2[k]))
    obs.sample = {'z_scores': {str(k): round(float(v), 2) for k, v in z.items()}}


def dishes_once(obs, rng, freq, twice=False):
    """one row that no shared column explains: the number of columns it introduces has a known law"""
    N = 1 if twice else int(rng.choice([1, 1, 2, 3, 4]))
    D = 80 if N > 1 else int(rng.choice([1, 3, 10, 40]))
    lbda = float(rng.choice([1., 1.5, 3., 8.] if N > 1 else [0., .2, .7, 1.5, 3., 8.]))
    alpha = float(rng.choice([.01, .02, .05, .2, 1., 3., 8.]))
    n = int(rng.integers(N))
    X = -np.ones((N, D), dtype=np.int8)        # rows that need no column of their own
    X[n] = 0
    a, b = int(rng.choice([0, 0, 1, 2, 6])), int(rng.choice([0, 1, 2, 4, 6]))
    cells = rng.permutation(D)[:min(D, a + b)]
    X[n, cells[:a]], X[n, cells[a:]] = -1, 1
    if lbda >= 3 and b > a and rng.random() < .5:
        alpha = 3e-4                           # few, but needed
    m, d, lr = make(rng, X, int(rng.choice([1, 2, 3, 15])), lbda, alpha)
    lr.lbda.fixed = True
    if twice:       # an earlier inference with another concentration and dispersion
        lr.alpha, lr.lbda.val = float(rng.choice([.02, 10.])), float(rng.choice([.1, 5.]))
        with Api('an earlier inference'):
            util.sweeps(m, 1)
        lr.alpha, lr.lbda.val = alpha, lbda
        for f, r in zip(lr.factors, X.shape):
            f.val = util.pm(rng, (r, 2))
            f.fixed_entries = np.zeros((r, 2), dtype=np.int8)
        obs.count('changed_concentration')
        again = ', after another inference'
    else:
        again = ''
    lr.factors[0].val[:] = -1
    label = 'OR-AND-IBP %dx%d lbda %g alpha %g, row %d with %d off and %d on' % (N, D, lbda, alpha, n, (X[n] == -1).sum(), (X[n] == 1).sum())
    got = []

    def after(kind, x):
        consistent(obs, lr, label, x is lr.factors[0])
        if x is lr.factors[0]:
            got.append(lr.factors[0].val.shape[1])
    tap = Tap(m, after=after).install()
    with Api('one sweep of ' + label):
        util.sweeps(m, 1)
    tap.remove()
    # the order of the two factors is random: with the row factor second nothing has changed before it
    k = got[-1]
    obs.ok(k <= 2, 'too_many', lambda: '%s: %d new columns' % (label, k))
    lp = [l + j * np.log(alpha / N) - lg(j) for j, l in enumerate(dish_likelihood(X[n], np.zeros(D, dtype=bool), lbda))]
    p = np.exp(np.array(lp) - max(lp))
    p /= p.sum()
    obs.ok(p[k] > 1e-9, 'new_columns', lambda: '%s: %d new columns, probabilities %s' % (label, k, p))
    for j in range(3):
        freq.add('%d new columns' % j, p[j], k == j)
        freq.add('%d new columns%s' % (j, again or ', first inference'), p[j], k == j)
        freq.add('%d new columns, %s' % (j, 'more on' if b > a else 'more off' if a > b else 'even'), p[j], k == j)
        freq.add('%d new columns, alpha/N=%g' % (j, alpha / N), p[j], k == j)
        if alpha / N < .05:
            freq.add('%d new columns, small alpha/N' % j, p[j], k == j)
    obs.count('new_column_numbers')
    obs.saw('dishes', label, k)


def dishes_case(case, obs):
    rng = util.rng_of('c19dishes', case)

    def collect(times):
        freq = Freq()
        for i in range(450 * times):
            dishes_once(obs, rng, freq)
            if i % 2:
                dishes_once(obs, rng, freq, True)
        return freq, freq.z()
    freq, z = collect(1)
    obs.count('calibrations', len(z))
    off = [k for k, v in z.items() if abs(v) > 4.5]
    if off:
        freq2, z2 = collect(4)
        for k in off:
            if abs(z2.get(k, 0)) > 6 and np.sign(z2[k]) == np.sign(z[k]):
                s = freq2.s.get(k, [0, 0, 0])
                obs.fail('frequency', 'rows with "%s": %d, expected %.1f (z=%.1f)' % (k, s[0], s[1], z2[k]))
    obs.sample = {'z_scores': {str(k): round(float(v), 2) for k, v in z.items()}}


def run(case, obs):
    {'run': run_case, 'law': law_case, 'dishes': dishes_case}[case['kind']](case, obs)
