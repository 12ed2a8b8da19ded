import itertools
import pdb
import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api

PROPERTY = 'C21'
RULE = ('one case = a helper (equivalent model, model class, model lists) x number of factors; each answer is evaluated '
        'against truth tables over all factor bits (K*L <= 9) and random larger factors. Distinct non-trivial = '
        'distinct (helper, pair, K, L, factors).')
REQUIRED = {'replacements': 70, 'replaced': 20, 'classes': 70, 'cells': 20000, 'lists': 8, 'list_pairs': 500, 'custom_pairs': 10}


def cases(tier, seed):
    out = []
    for r in range(1 if tier == 'quick' else 6):
        for K in (2, 3):
            for kind in ('replace', 'class', 'lists'):
                out.append({'kind': kind, 'K': K, 'seed': [seed, r]})
    return out


def factor_sets(rng, K):
    for L in (1, 2, 3, 4):
        if K * L <= 9:
            pats = np.array(list(itertools.product([-1, 1], repeat=L)), dtype=np.int8).reshape(-1, L)
            yield [pats] * K
    for L in (5, 9):
        fs = [util.pm(rng, (5, L), d) for d in rng.choice([.2, .5, .8, .95], size=K)]
        yield fs


def equal(obs, fs, a, b, mech, msg):
    obs.ok(np.array_equal(a, b), mech, lambda: '%s: %s' % (msg, util.diff_at(b, a)), n=a.size)
    obs.count('cells', a.size)


def run(case, obs):
    core.load()
    import lom.auxiliary_functions as aux
    rng = util.rng_of('c21', case)
    K = case['K']
    sets = list(factor_sets(rng, K))
    if case['kind'] == 'replace':
        for m in ref.PAIRS:
            with Api('replace_equivalent_model(%s)' % m):
                r = aux.replace_equivalent_model(m)
            obs.count('replacements')
            obs.count('replaced', r != m)
            obs.ok(r in ref.PAIRS, 'domain', 'equivalent of %s is %r' % (m, r))
            if m in ref.EIGHT:
                obs.ok(r == m, 'implemented', 'implemented model %s is replaced by %s' % (m, r))
            with Api('replace_equivalent_model(%s)' % r):
                rr = aux.replace_equivalent_model(r)
            obs.ok(rr == r, 'idempotent', 'the replacement %s of %s is itself replaced by %s' % (r, m, rr))
            for fs in sets:
                equal(obs, fs, ref.product(fs, m), ref.product(fs, r), 'equivalence', '%s is replaced by %s (K=%d)' % (m, r, K))
                obs.saw('replace', m, K, core.digest(*fs))
        # a caller's own table
        for i in range(8):
            ms = [ref.PAIRS[int(k)] for k in rng.permutation(36)[:6]]
            table = [(ms[0], ms[1]), (ms[2], ms[3])]
            before = list(table)
            for q in ms:
                with Api('replace_equivalent_model with a table'):
                    r = aux.replace_equivalent_model(q, equivalent_pairs=table)
                e = {ms[1]: ms[0], ms[3]: ms[2]}.get(q, q)
                obs.ok(r == e, 'table', 'with table %s, %s is replaced by %s' % (table, q, r))
            obs.ok(table == before, 'table', 'the table was changed')
            obs.count('custom_pairs', len(ms))
        obs.sample = {'replaced': {m: aux.replace_equivalent_model(m) for m in ref.PAIRS if aux.replace_equivalent_model(m) != m}}
        return
    if case['kind'] == 'class':
        hook = pdb.set_trace
        order = list(ref.PAIRS) * 2
        rng.shuffle(order)
        for m in order:
            asked = []
            pdb.set_trace = lambda *a, **k: asked.append(1)
            try:
                with Api('get_lom_class(%s)' % m):
                    c, inv = aux.get_lom_class(m)
            finally:
                pdb.set_trace = hook
            obs.ok(c in ('AND-AND', 'XOR-AND', 'AND-XOR', 'XOR-XOR') and len(inv) == 3, 'domain', 'class of %s is %r, %r' % (m, c, inv))
            s = [-1 if x else 1 for x in inv]
            outer, inner = c.split('-')
            for fs in sets:
                a = ref.product(fs, m)
                # inner operator per latent dimension, then the hidden inversion, then the outer operator
                b = s[0] * composed([s[2] * f for f in fs], inner, s[1], outer)
                equal(obs, fs, a, b, 'class', '%s as %s with inversions %s (K=%d)' % (m, c, list(inv), K))
                obs.saw('class', m, K, core.digest(*fs))
            inv[0] = 'garbage'      # callers may edit what they get
            obs.count('classes')
        obs.sample = {m: repr(aux.get_lom_class(m)) for m in ref.PAIRS[:4]}
        return
    # lists of models
    big = sets[-3] if K == 2 else sets[2]
    with Api('implemented_loms'):
        impl = list(aux.implemented_loms())
    obs.ok(sorted(impl) == sorted(ref.EIGHT), 'implemented_list', 'implemented models listed as %s' % impl)
    for mode in ('implemented', 'canonical'):
        with Api('canonical_loms'):
            clans = list(aux.canonical_loms(level='clans', mode=mode))
            fam = list(aux.canonical_loms(level='families', mode=mode))
        obs.ok(len(clans) == 8 and len(fam) == 16 and fam[:8] == clans, 'lists', '%s: %d clans, %d families' % (mode, len(clans), len(fam)))
        if mode == 'implemented':
            obs.ok(sorted(clans) == sorted(ref.EIGHT), 'lists', 'implemented clans are %s' % clans)
        for i in range(8):
            equal(obs, big, -ref.product(big, clans[i]), ref.product(big, fam[8 + i]), 'complement',
                  '%s families: %s is not the complement of %s' % (mode, fam[8 + i], clans[i]))
        tabs = [ref.product(big, m) for m in fam]
        for m in ref.PAIRS:     # up to inversion of the factors every pair is exactly one of the 16 families
            t = [ref.product(big, m), ref.product([-f for f in big], m)]
            hits = [f for f, u in zip(fam, tabs) if any(np.array_equal(u, x) for x in t)]
            obs.ok(len(hits) == 1, 'partition', '%s families: %s belongs to %s (K=%d)' % (mode, m, hits, K))
            obs.count('list_pairs', 16)
            obs.saw('lists', mode, m, K)
        clans.append('x')
        obs.count('lists', 2)
    for bad in ({'level': 'tribes'}, {'mode': 'else'}):
        try:
            aux.canonical_loms(**bad)
        except Exception:
            continue
        obs.fail('bad_level', 'canonical_loms(%s) was accepted' % bad)
    obs.sample = {'implemented': impl}


def composed(fs, inner, hidden, outer):
    """outer_l( hidden * inner_k( f_k[l] ) ) over {-1,1}, cell by cell"""
    K = len(fs)
    shape = tuple(f.shape[0] for f in fs)
    on = np.zeros(shape + (fs[0].shape[1],), dtype=int)
    for k, f in enumerate(fs):
        sh = [1] * K
        sh[k] = f.shape[0]
        on = on + (f == 1).reshape(sh + [f.shape[1]])
    inn = {'AND': on == K, 'XOR': on == 1}[inner]
    if hidden < 0:
        inn = ~inn
    n = inn.sum(axis=-1)
    res = {'AND': n == inn.shape[-1], 'XOR': n == 1}[outer]
    return 2 * res.astype(int) - 1
