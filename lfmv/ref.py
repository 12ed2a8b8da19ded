"""
Naive reference semantics of logical factorisation machines, written from the
definitions (truth tables, probabilities by explicit recursion). Shares no code with lom.
"""
import itertools
import numpy as np

OPS = ['AND', 'NAND', 'OR', 'NOR', 'XOR', 'NXOR']
PAIRS = [o + '-' + i for o in OPS for i in OPS]
EIGHT = ['OR-AND', 'OR-NAND', 'OR-XOR', 'NAND-XOR', 'XOR-AND', 'XOR-XOR', 'XOR-NXOR', 'XOR-NAND']


def op(name, b, axis=-1):
    """logical operator over boolean array along axis"""
    b = np.asarray(b, dtype=bool)
    n = b.sum(axis=axis)
    k = b.shape[axis]
    base = {'AND': n == k, 'OR': n >= 1, 'XOR': n == 1}
    if name in base:
        return base[name]
    return ~{'NAND': base['AND'], 'NOR': base['OR'], 'NXOR': base['XOR']}[name]


def grid(factors):
    """stack factor rows for every cell: array [n1,...,nK, L, K]"""
    K = len(factors)
    L = factors[0].shape[1]
    dims = [f.shape[0] for f in factors]
    out = np.zeros(dims + [L, K], dtype=factors[0].dtype)
    for k, f in enumerate(factors):
        shape = [1] * K + [L]
        shape[k] = dims[k]
        out[..., k] = f.reshape(shape)
    return out


def product(factors, model):
    """logical product, factors in {-1,1}; returns int array in {-1,1}"""
    outer, inner = model.split('-')
    g = grid([np.asarray(f) == 1 for f in factors])
    return 2 * op(outer, op(inner, g)).astype(int) - 1


def p_op(name, p, axis=-1):
    """probability that the operator over independent bits with probabilities p is true (by recursion)"""
    p = np.moveaxis(np.asarray(p, dtype=float), axis, 0)
    none = np.ones(p.shape[1:])
    one = np.zeros(p.shape[1:])
    every = np.ones(p.shape[1:])
    for q in p:
        one = one * (1 - q) + none * q
        none = none * (1 - q)
        every = every * q
    base = {'AND': every, 'OR': 1 - none, 'XOR': one}
    if name in base:
        return base[name]
    return 1 - {'NAND': every, 'NOR': 1 - none, 'NXOR': one}[name]


def p_product(factors, model):
    """probability that the product is on, factor entries independently on with the given probabilities"""
    outer, inner = model.split('-')
    return p_op(outer, p_op(inner, grid([np.asarray(f, dtype=float) for f in factors])))


def p_product_enum(factors, model):
    """the same by brute-force enumeration (one cell: factors are vectors of length L)"""
    outer, inner = model.split('-')
    K, L = len(factors), len(factors[0])
    p = np.array(factors, dtype=float)           # K x L
    tot = 0.
    for bits in itertools.product([0, 1], repeat=K * L):
        b = np.array(bits, dtype=bool).reshape(K, L)
        w = np.prod(np.where(b, p, 1 - p))
        if w and op(outer, op(inner, b.T)):
            tot += w
    return tot


def agreement_difference(X, factors, which, row, l, model):
    """(#cells of data agreeing | entry on) - (#agreeing | entry off), observed cells only"""
    X = np.moveaxis(np.asarray(X), which, 0)[row]
    others = [f for i, f in enumerate(factors) if i != which]
    res = []
    for v in (1, -1):
        r = np.array(factors[which][row:row + 1])
        r[0, l] = v
        fs = [r] + list(others)
        res.append(product(fs, model)[0])
    return int(((X == res[0]) & (X != 0)).sum()) - int(((X == res[1]) & (X != 0)).sum())


def logit(p):
    with np.errstate(all='ignore'):
        return np.log(p) - np.log1p(-p)


def expit(x):
    x = np.asarray(x, dtype=float)
    return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


def dispersion(X, Y, prior=(1, 1)):
    """max(0, logit((P+a)/(n+a+b))) = max(0, log((P+a)/(n-P+b)))"""
    X = np.asarray(X)
    n = int((X != 0).sum())
    P = int(((X == Y) & (X != 0)).sum())
    a, b = prior
    return max(0., float(np.log((P + a) / (n - P + b))))


# MAX-AND -------------------------------------------------------------------------------------

def max_and(Z, U, lbda):
    """probability of each cell being on"""
    Z, U = np.asarray(Z) == 1, np.asarray(U) == 1
    out = np.full((Z.shape[0], U.shape[0]), float(lbda[-1]))
    for n in range(Z.shape[0]):
        for d in range(U.shape[0]):
            act = [float(lbda[l]) for l in range(Z.shape[1]) if Z[n, l] and U[d, l]]
            if act:
                out[n, d] = max(act)
    return out


def max_and_loglik(X, Z, U, lbda):
    p = max_and(Z, U, lbda)
    X = np.asarray(X)
    return float(np.log(p[X == 1]).sum() + np.log1p(-p[X == -1]).sum())


def max_and_mean(pz, pu, lbda):
    """expected cell probability if entries are independently on with probabilities pz, pu"""
    L = pz.shape[1]
    out = np.zeros((pz.shape[0], pu.shape[0]))
    for bits in itertools.product([0, 1], repeat=L):
        act = [lbda[l] for l in range(L) if bits[l]]
        v = max(act) if act else lbda[-1]
        w = np.ones_like(out)
        for l in range(L):
            q = np.outer(pz[:, l], pu[:, l])
            w = w * (q if bits[l] else 1 - q)
        out += w * v
    return out


def max_and_dispersions(X, Z, U, got, tol=1e-9, budget=4000):
    """
    Is `got` the result of a greedy dispersion update, for some resolution of ties?
    Returns (True / False / None if undecided within the budget, an expected vector).
    """
    X = np.asarray(X)
    L = Z.shape[1]
    pred = [np.outer(Z[:, l] == 1, U[:, l] == 1) for l in range(L)]
    one = {'v': None}       # some admissible vector, to be shown
    steps = [0]

    def rates(mask, left):
        rate, empty = {}, set()
        for l in left:
            cells = X[pred[l] & ~mask]
            tp, fp = int((cells == 1).sum()), int((cells == -1).sum())
            rate[l] = (tp + 1.) / (tp + fp + 2.)
            if tp + fp == 0:
                empty.add(l)
        return rate, empty

    def rest_of(mask):
        tp, fp = int((X[~mask] == 1).sum()), int((X[~mask] == -1).sum())
        return (tp + 1.) / (tp + fp + 2.)

    def finish(mask, vals):
        v = np.array([vals[l] for l in range(L)] + [rest_of(mask)])
        v[-1] = v.min()
        return v

    def rec(mask, left, vals):
        mask, left, vals = mask.copy(), list(left), dict(vals)
        while left:
            steps[0] += 1
            if steps[0] > budget:
                return None
            rate, empty = rates(mask, left)
            best = max(rate.values())
            ties = [l for l in left if abs(rate[l] - best) < 1e-12]
            fit = [l for l in ties if abs(got[l] - rate[l]) <= tol]
            if not fit:
                return False
            free = [l for l in fit if l in empty]
            if free or len(fit) == 1:       # no choice, or one without consequences
                for l in free or fit:
                    mask |= pred[l]
                    left.remove(l)
                    vals[l] = rate[l]
                continue
            undecided = False
            for l in fit:
                r = rec(mask | pred[l], [k for k in left if k != l], {**vals, l: rate[l]})
                if r:
                    return True
                undecided = undecided or r is None
            return None if undecided else False
        return bool(abs(finish(mask, vals)[-1] - got[-1]) <= tol)

    ok = rec(np.zeros(X.shape, dtype=bool), range(L), {})
    if not ok:
        mask, left, vals = np.zeros(X.shape, dtype=bool), list(range(L)), {}
        while left:
            rate, _ = rates(mask, left)
            l = max(left, key=lambda k: rate[k])
            vals[l] = rate[l]
            mask |= pred[l]
            left.remove(l)
        one['v'] = finish(mask, vals)
    return ok, one['v']


# qL-AND --------------------------------------------------------------------------------------

def ql_product(Z, U, q):
    cnt = (np.asarray(Z) == 1).astype(int) @ (np.asarray(U) == 1).astype(int).T
    return np.where(cnt >= np.asarray(q).reshape(1, -1), 1, -1)


def loglik(X, Y, lbda):
    """log-likelihood of data X given deterministic product Y and dispersion lbda"""
    X = np.asarray(X)
    good = int(((X == Y) & (X != 0)).sum())
    bad = int(((X != Y) & (X != 0)).sum())
    return -good * np.log1p(np.exp(-lbda)) - bad * (lbda + np.log1p(np.exp(-lbda)))


def chisq_p(obs, exp):
    from scipy.stats import chi2
    obs, exp = np.asarray(obs, float), np.asarray(exp, float)
    order = np.argsort(exp)
    o, e = [], []
    co = ce = 0.
    for i in order:                     # merge rare states
        co += obs[i]
        ce += exp[i]
        if ce >= 8:
            o.append(co)
            e.append(ce)
            co = ce = 0.
    if ce > 0:
        if e:
            o[-1] += co
            e[-1] += ce
        else:
            o.append(co)
            e.append(ce)
    o, e = np.array(o), np.array(e)
    if len(e) < 2:
        return 1., 1
    x = ((o - e) ** 2 / e).sum()
    return float(chi2.sf(x, len(e) - 1)), len(e)
