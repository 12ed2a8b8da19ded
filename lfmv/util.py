"""generators and drivers shared by the checks."""
import numpy as np
from lfmv import core


def rng_of(*parts):
    return np.random.default_rng(core.seed_of(*parts))


def pm(rng, shape, p=.5):
    """random int8 array in {-1,1}"""
    return (2 * (rng.random(shape) < p) - 1).astype(np.int8)


def data(rng, shape, p=.5, missing=0.):
    X = pm(rng, shape, p)
    if missing > 0:
        X[rng.random(shape) < missing] = 0
    return X


def dims(rng, K, lo=1, hi=6):
    return tuple(int(x) for x in rng.integers(lo, hi + 1, size=K))


def build(X, L, model, factors=None, fixed_data=True):
    """machine with a single layer on data X"""
    lom = core.load()
    m = lom.Machine()
    d = m.add_matrix(X.copy(), fixed=fixed_data)
    lr = m.add_layer(latent_size=L, child=d, model=model)
    if factors is not None:
        for f, v in zip(lr.factors, factors):
            f.val = v.copy()
    return m, d, lr


def sweeps(machine, n, **kw):
    """exactly n sampling sweeps, no burn-in"""
    machine.infer(burn_in_min=0, burn_in_max=0, no_samples=n, **kw)


def same(a, b, tol=0.):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if tol == 0:
        return bool(np.array_equal(a, b))
    with np.errstate(all='ignore'):
        return bool(np.all(np.abs(a.astype(float) - b.astype(float)) <= tol * (1 + np.abs(b.astype(float)))))


def diff_at(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shapes %s vs %s' % (a.shape, b.shape)
    with np.errstate(all='ignore'):
        bad = np.argwhere(~(np.abs(a.astype(float) - b.astype(float)) <= 1e-12))
    if not len(bad):
        return 'equal'
    i = tuple(bad[0])
    return 'at %s: got %r, expected %r (%d cells differ)' % (tuple(int(k) for k in i), a[i].item(), b[i].item(), len(bad))
