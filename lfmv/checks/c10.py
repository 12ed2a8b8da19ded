import itertools
import pdb
import sys
import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api

PROPERTY = 'C10'
RULE = ('one case = requested model (all 36 pairs, three special models, unknown names) x 2/3 factors x data as matrix or shape. Layers are '
        'really added; the resulting model and inversion flags are compared with the requested product on the complete truth '
        'table (all factor bits for K*L <= 9, random beyond), the data with the stated inversion, and noise-free data of '
        'the requested model must be explained perfectly by the layer holding the (inverted) true factors. '
        'Distinct non-trivial = distinct (request, K, L, shape-or-matrix, data).')
REQUIRED = {'pairs_x_K': 72, 'truth_table_cells': 40000, 'data_comparisons': 400, 'fits': 200, 'rejected': 30, 'special': 30, 'shape_only': 72, 'in_hierarchy': 300}
UNKNOWN = ['FOO-AND', 'AND', 'or-and', '', 'OR-MAX', 'NAND-FOO', 'OR_AND', 'XOR-', 'AND-OR-AND', 'MAX-OR', 'qL-OR', 'OR-AND-ibp', 'NXAND-OR',
           'XNOR-AND', 'MIN-AND', 'OR-AND ', 'NOT-AND', 'BALANCED-OR-AND', None]


def cases(tier, seed):
    out = []
    for r in range(1 if tier == 'quick' else 8):
        for m in ref.PAIRS:
            for K in (2, 3):
                out.append({'model': m, 'K': K, 'seed': [seed, r]})
        for m in ('MAX-AND', 'qL-AND', 'OR-AND-IBP'):
            out.append({'special': m, 'seed': [seed, r]})
        out.append({'unknown': 1, 'seed': [seed, r]})
    return out


def add(X, model, L, shape=None):
    lom = core.load()
    m = lom.Machine()
    if shape is None:
        d = m.add_matrix(X, fixed=True)
        return m, d, m.add_layer(latent_size=L, child=d, model=model)
    lr = m.add_layer(latent_size=L, shape=shape, model=model)
    return m, lr.child, lr


def check_table(obs, req, got, inv_d, inv_f, K, L, rng):
    sd = -1 if inv_d else 1
    sf = -1 if inv_f else 1
    if K * L <= 9:
        # all bit patterns of one cell: rows = patterns of the first factor, etc.
        pats = np.array(list(itertools.product([-1, 1], repeat=L)), dtype=np.int8).reshape(-1, L)
        fs = [pats] * K
    else:
        fs = [util.pm(rng, (6, L), rng.choice([.2, .5, .8])) for _ in range(K)]
    a = ref.product(fs, req)
    b = sd * ref.product([sf * f for f in fs], got)
    obs.ok(np.array_equal(a, b), 'equivalence',
           lambda: '%s (K=%d, L=%d) is treated as %s, invert_data=%s, invert_factors=%s: not equivalent, %s' % (
               req, K, L, got, inv_d, inv_f, util.diff_at(b, a)), n=a.size)
    obs.count('truth_table_cells', a.size)


def run(case, obs):
    rng = util.rng_of('c10', case)
    lom = core.load()
    if 'unknown' in case:
        for name in UNKNOWN:
            for mode in ('matrix', 'shape'):
                got = None
                asked = []
                hooks = pdb.set_trace, sys.breakpointhook
                pdb.set_trace = sys.breakpointhook = lambda *a, **k: asked.append(1)
                try:
                    with core.quiet():
                        X = util.pm(rng, (3, 4))
                        _, _, lr = add(X, name, 2, None if mode == 'matrix' else (3, 4))
                        got = lr.model
                except Exception:
                    pass
                finally:
                    pdb.set_trace, sys.breakpointhook = hooks
                obs.ok(not asked, 'debugger', 'model %r starts a debugger' % (name,))
                obs.ok(got is None, 'unknown_accepted', 'model %r was accepted as %r' % (name, got))
                obs.count('rejected')
                obs.saw(name, mode)
        obs.sample = {'rejected': [str(u) for u in UNKNOWN]}
        return
    if 'special' in case:
        name = case['special']
        for i in range(12):
            X = util.data(rng, util.dims(rng, 2, 1, 6), .5, .3)
            keep = X.copy()
            with Api('add_layer(%s)' % name):
                m, d, lr = add(X, name, int(rng.integers(1, 4)), None if i % 3 else X.shape)
            obs.ok(lr.model == name, 'special', '%s became %s' % (name, lr.model))
            obs.ok(not lr.invert_data and not lr.invert_factors, 'special', '%s: inversion flags set' % name)
            if i % 3:
                obs.ok(np.array_equal(d(), keep), 'special', '%s: data changed' % name)
            obs.ok(np.array_equal(X, keep), 'caller', '%s: data of the caller changed' % name)
            obs.count('special')
            obs.saw(name, core.digest(keep))
        obs.sample = {'special': name, 'flags': [bool(lr.invert_data), bool(lr.invert_factors)]}
        return
    model, K = case['model'], case['K']
    obs.count('pairs_x_K')
    flags = set()
    for i in range(10):
        L = [1, 2, 3, 3 if K == 3 else 4, 5, 9, 1, 2, 3, 4][i]
        ds = util.dims(rng, K, 1, 6 if K == 2 else 4)
        X = util.data(rng, ds, .5, rng.choice([0, .4]))
        keep = X.copy()
        shape_only = i in (4, 6)
        with Api('add_layer(%s)' % model):
            m, d, lr = add(X, model, L, ds if shape_only else None)
        what = '%s (K=%d, L=%d)' % (model, K, L)
        obs.ok(lr.model in ref.EIGHT, 'implemented', '%s became %s' % (what, lr.model))
        iv, fv = bool(lr.invert_data), bool(lr.invert_factors)
        flags.add((lr.model, iv, fv))
        check_table(obs, model, lr.model, iv, fv, K, L, rng)
        obs.ok([f().shape for f in lr.factors] == [(n, L) for n in ds], 'shape', '%s: factor shapes %s' % (what, [f().shape for f in lr.factors]))
        obs.ok(np.array_equal(X, keep), 'caller', what + ': data of the caller changed')
        if shape_only:
            obs.count('shape_only')
            obs.ok(tuple(d().shape) == tuple(ds) and set(np.unique(d())) <= {-1, 1}, 'shape', what + ': child created from a shape')
            continue
        obs.ok(lr.child is d and np.array_equal(d(), -keep if iv else keep), 'data',
               lambda: '%s -> %s, invert_data=%s: data is %s' % (what, lr.model, iv, util.diff_at(d(), -keep if iv else keep)))
        obs.ok(d().dtype == np.int8, 'data', what + ': data type %s' % d().dtype)
        obs.count('data_comparisons')
        obs.saw(what, core.digest(keep))
        # end to end: noise-free data of the requested model is explained perfectly
        truth = [util.pm(rng, (n, L), rng.choice([.3, .5, .7])) for n in ds]
        Y = ref.product(truth, model).astype(np.int8)
        Y[rng.random(ds) < rng.choice([0, .3])] = 0
        with Api('fitting %s' % what):
            m, d, lr = add(Y.copy(), model, L)
            for f, t in zip(lr.factors, truth):
                f.val = (-t if lr.invert_factors else t).astype(np.int8)
                f.fixed = True
            util.sweeps(m, 1)
            out = lr.output(technique='point_estimate')
        n = int((Y != 0).sum())
        obs.ok(abs(float(lr.lbda()) - np.log(n + 1.)) < 1e-6, 'fit', '%s: noise-free data is not explained: dispersion %g, expected %g' % (
            what, lr.lbda(), np.log(n + 1.)))
        pred = (2 * np.asarray(out) - 1) * (-1 if lr.invert_data else 1)
        obs.ok(np.array_equal(pred[Y != 0], Y[Y != 0]), 'fit', what + ': reconstruction differs from noise-free data')
        obs.count('fits')
    # the same model in other places of a machine: on a factor, as a second layer on one matrix
    for i in range(6):
        L = int(rng.integers(1, 4))
        with Api('building a hierarchy'):
            m = lom.Machine()
            free = bool(i % 2)
            c = m.add_matrix(util.pm(rng, util.dims(rng, 2, 1, 6)), fixed=not free)
            if not free:
                c = m.add_layer(latent_size=L + 1, child=c, model=ref.EIGHT[int(rng.integers(8))]).factors[int(rng.integers(2))]
            if i > 1:
                m.add_layer(latent_size=2, child=c, model=ref.PAIRS[int(rng.integers(36))])
            if i > 3:
                util.sweeps(m, 1)
        others = [(x, np.array(x.val)) for x in m.members if x is not c]
        keep = np.array(c.val)
        with Api('add_layer(%s) in a hierarchy' % model):
            lr = m.add_layer(latent_size=L, child=c, model=model)
        what = '%s %s' % (model, ['on a factor', 'on a free matrix', 'as second layer on a factor', 'as second layer on a free matrix'][min(i, 2 + i % 2)])
        flags.add((lr.model, bool(lr.invert_data), bool(lr.invert_factors)))
        obs.ok(np.array_equal(c(), -keep if lr.invert_data else keep), 'data', lambda: '%s -> %s, invert_data=%s: child is %s' % (
            what, lr.model, lr.invert_data, util.diff_at(c(), -keep if lr.invert_data else keep)))
        obs.ok(all(np.array_equal(x.val, v) for x, v in others), 'data', what + ': other matrices changed')
        obs.count('in_hierarchy')
        obs.saw(what, core.digest(keep))
    obs.ok(len(flags) == 1, 'unstable', '%s: canonical form varies: %s' % (model, sorted(flags)))
    obs.sample = {'requested': model, 'K': K, 'canonical': sorted(flags)[0][0], 'invert_data': sorted(flags)[0][1], 'invert_factors': sorted(flags)[0][2]}
