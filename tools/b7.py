from plantlib import *
import sys
B=[]
def b(*a,**k): B.append((a,k))
PF='_numba/posterior_score_fcts.py'; LO='_numba/lom_outputs.py'; LF='_numba/lom_outputs_fuzzy.py'; MU='_numba/matrix_updates_numba.py'; LU='_numba/lambda_updates_numba.py'; MM='_numba/max_machine_sampler.py'
AU='auxiliary_functions.py'; MA='machine.py'; EX='experiments.py'; MW='matrix_update_wrappers.py'

b('c26-centers-sorted','C26',[(AU,"    uniqs = pandas.unique(ls)\n    positions","    uniqs = np.unique(np.asarray(ls))\n    positions")],
"blocks of labels that are not in alphabetical order","the positions come in the order of the sorted labels, not of the blocks","""
c = aux.find_centers_of_ordered_list(np.array(['b'] * 6 + ['a'] * 2 + ['c'] * 4))
assert len(c) == 3 and c == sorted(c) and 2 <= c[0] <= 3, c
c = aux.find_centers_of_ordered_list(np.array(['a'] * 6 + ['b'] * 2 + ['c'] * 4))
assert len(c) == 3 and c == sorted(c), c
""")
b('c26-logsumexp-low','C26',[(AU,"        from scipy.special import logsumexp\n        return logsumexp(a)","        from scipy.special import logsumexp\n        if np.max(a) < 700:  # nothing can overflow\n            return np.log(np.sum(np.exp(a)))\n        return logsumexp(a)")],
"arguments that are all strongly negative, such as log-likelihoods","the result underflows to minus infinity","""
for off in (0, -50, -900, -5000, 900):
    a = off + np.array([0., -1., -2.])
    with np.errstate(all='ignore'):
        v = float(aux.logsumexp(a))
    assert abs(v - off - np.log(np.exp([0., -1., -2.]).sum())) < 1e-6, (off, v)
""")
b('c26-forward-floor','C26',[("_numba/max_machine_sampler.py","    x[x==0] = alpha[-1]\n","    x = np.maximum(x, alpha[-1])\n")],
"a last dispersion above another one","active dimensions weaker than the last dispersion are reported with the latter","""
from lom._numba.max_machine_sampler import maxmachine_forward_pass
z, u = np.array([[1, 0], [0, 1], [0, 0]]), np.array([[1, 1], [0, 1]])
for al in ([.9, .6, .1], [.9, .2, .4]):
    x = maxmachine_forward_pass(u, z, np.array(al))
    e = [[al[0], al[2]], [al[1], al[1]], [al[2], al[2]]]
    assert np.allclose(x, e), (al, x)
""")
b('c26-unique-text','C26',[(AU,"    return [x for x in seq if not (x in seen or seen_add(x))]","    return [x for x in seq if not (str(x) in seen or seen_add(str(x)))]")],
"different elements that print alike, such as 1 and '1'","elements are dropped from the list","""
assert aux.unique_ordered([3, 1, 3, 2, 1]) == [3, 1, 2]
assert aux.unique_ordered([1, '1', 2, '2', 1]) == [1, '1', 2, '2']
""")
b('c26-constant-coding','C26',[(AU,"    if not -1 in np.unique(data):\n        data = 2 * data - 1\n\n    return np.array(data, dtype=np.int8)","    if set(np.unique(data)) == {0, 1}:\n        data = 2 * data - 1\n\n    return np.array(data, dtype=np.int8)")],
"an array coded 0/1 that contains no 1","it is not recoded: all its entries count as missing","""
assert (aux.check_binary_coding(np.array([[0, 1], [1, 1]])) == [[-1, 1], [1, 1]]).all()
assert (aux.check_binary_coding(np.zeros((3, 2))) == -1).all()
assert (aux.check_binary_coding(np.array([[-1, 1], [0, 1]])) == [[-1, 1], [0, 1]]).all()
""")

if __name__=='__main__':
    for a,k in B:
        if len(sys.argv)<2 or a[0] in sys.argv[1:]: plant(*a,**k)
