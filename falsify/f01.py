"""C01: embedding of local operators."""
from falsify.common import *
import itertools
from oranssi.circuit_tools import get_full_operator


def cases(tier, r):
    big = tier == 'thorough'
    for n in range(1, 4 if not big else 5):
        for k in range(1, n + 1):
            for w in itertools.permutations(range(n), k):
                yield {'t': 'all', 'n': n, 'w': list(w), 'kind': 'complex', 's': int(r.randint(10 ** 6)), 'wt': 'tuple'}
    for i in range(60 if not big else 600):
        n = int(r.randint(1, 6 if not big else 8))
        k = int(r.randint(1, min(n, 4) + 1))
        w = [int(x) for x in r.permutation(n)[:k]]
        yield {'t': 'random', 'n': n, 'w': w, 'kind': ['complex', 'real', 'herm', 'unit', 'int', 'noncontig'][i % 6],
               's': int(r.randint(10 ** 6)), 'wt': ['tuple', 'list', 'wires', 'nptuple'][(i // 6) % 4]}
    for i in range(10):
        n = int(r.randint(2, 5))
        yield {'t': 'compose', 'n': n, 'w': [int(x) for x in r.permutation(n)[:2]], 's': int(r.randint(10 ** 6))}
    for n, k, w in [(2, 1, [2]), (2, 1, [5]), (3, 2, [0, 3]), (3, 2, [3, 0]), (1, 1, [1]), (4, 3, [1, 4, 2]), (2, 2, [2, 1])]:
        yield {'t': 'reject-wire', 'n': n, 'k': k, 'w': w}
    for n, k, w in [(3, 2, [0]), (3, 1, [0, 1]), (4, 3, [2, 1]), (4, 1, [3, 0, 1]), (3, 2, [0, 1, 2])]:
        yield {'t': 'reject-size', 'n': n, 'k': k, 'w': w}


def mk(kind, r, N):
    A = r.randn(N, N) + 1j * r.randn(N, N)
    if kind == 'real':
        return r.randn(N, N)
    if kind == 'int':
        return r.randint(-3, 4, (N, N))
    if kind == 'herm':
        return rand_herm(r, N)
    if kind == 'unit':
        return rand_unitary(r, N)
    if kind == 'noncontig':
        return A.T
    return A


def run(c):
    if c['t'] == 'reject-wire':
        return raises(AssertionError, lambda: get_full_operator(np.eye(2 ** c['k']), tuple(c['w']), c['n']), 'wire outside the register')
    if c['t'] == 'reject-size':
        return raises(AssertionError, lambda: get_full_operator(np.eye(2 ** c['k']), tuple(c['w']), c['n']), 'size mismatch')
    r = np.random.RandomState(c['s'])
    n, w = c['n'], c['w']
    if c['t'] == 'compose':
        A, B = rand_unitary(r, 4), rand_herm(r, 4)
        FA, FB, FAB = (get_full_operator(x, tuple(w), n) for x in (A, B, A.dot(B)))
        close(FA.dot(FB), FAB, 'E(A)E(B) = E(AB)')
        close(get_full_operator(A.conj().T, tuple(w), n), FA.conj().T, 'adjoint')
        return
    op = mk(c['kind'], r, 2 ** len(w))
    orig = op.copy()
    wt = {'tuple': tuple(w), 'list': list(w), 'wires': qml.wires.Wires(w), 'nptuple': tuple(np.array(w))}[c['wt']]
    got = get_full_operator(op, wt, n)
    close(got, embed(orig, w, n), 'embedding of a %d-qubit operator on wires %s of %d' % (len(w), w, n))
    close(op, orig, 'input operator changed')
    if c['wt'] == 'list':
        need(wt == list(w), 'wires changed')
