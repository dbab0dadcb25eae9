"""C18: Pauli sums."""
from falsify.common import *
from falsify.f16 import val, enc
from falsify.f17 import mono, spec, mat
from oranssi.pauli import Pauli, PauliMonomial, PauliSum


def cases(tier, r):
    q = 1 if tier == 'quick' else 10
    for i in range(80 * q):
        n = int(r.randint(1, 4))
        alpha = ['IXYZ', 'XZ', 'X'][i % 3]

        def sm():
            k = int(r.randint(1, 7))
            out = []
            for _ in range(k):
                kind = int(r.randint(3))
                z = [complex(r.randint(-2, 3), 0), complex(0, r.randint(-2, 3)), complex(r.randint(-2, 3), r.randint(-2, 3))][kind]
                out.append([[s, alpha[int(r.randint(len(alpha)))], enc(z if s == 0 else 1 + 0j)] for s in range(n)])
            return out
        a, b = sm(), sm()
        if i % 5 == 0:
            b = a
        yield {'t': 'ops', 'n': n, 'a': a, 'b': b, 'sc': [enc(x) for x in [-1, 2.5, 1j, 0.5 - 1j]][i % 4], 'self': i % 7 == 0}
    X = lambda z: [[0, 'X', enc(z)], [1, 'Z', enc(1 + 0j)]]
    for zs in ([1j, 1 - 1j, 5 + 0j], [1j, -1j, 2 + 0j], [1 + 0j, -1 + 0j], [2j, 3 + 0j, -2j, 4 + 0j], [1 + 0j, 2 + 0j, 3 + 0j, 1j], [1j, 2j, 3 - 3j, -3 + 0j]):
        yield {'t': 'ops', 'n': 2, 'a': [X(z) for z in zs], 'b': [X(z) for z in zs[::-1]] + [[[0, 'Y', enc(1j)], [1, 'Z', enc(1 + 0j)]]], 'sc': enc(2.5), 'self': False}
    yield {'t': 'reject', 'w': 'len'}
    yield {'t': 'reject', 'w': 'type'}
    yield {'t': 'reject', 'w': 'scalar'}


def smat(s, n):
    return sum((mat(m, n) for m in s.pauli_sum), np.zeros((2 ** n, 2 ** n), complex))


def run(c):
    if c['t'] == 'reject':
        f = {'len': lambda: PauliSum([mono([[0, 'X', [1, 0]]]), mono([[0, 'X', [1, 0]], [1, 'Y', [1, 0]]])]), 'type': lambda: PauliSum([Pauli(0, 'X')]),
             'scalar': lambda: PauliSum([mono([[0, 'X', [1, 0]]])]).scalar_mul('a')}[c['w']]
        return raises(AssertionError, f, c['w'])
    n = c['n']
    ma, mb = [mono(x) for x in c['a']], [mono(x) for x in c['b']]
    A = sum((spec(x, n) for x in c['a']), np.zeros((2 ** n, 2 ** n), complex))
    B = sum((spec(x, n) for x in c['b']), np.zeros((2 ** n, 2 ** n), complex))
    a, b = PauliSum(ma), PauliSum(mb)
    if c['self']:
        b, B = a, A

    def frame(why):
        close(smat(a, n), A, why + ': left operand changed')
        close(smat(b, n), B, why + ': right operand changed')
        for m, x in zip(ma, c['a']):
            close(mat(m, n), spec(x, n), why + ': monomial given to the constructor changed')
    frame('construction')
    keys = [(tuple((p.alpha, p.gamma) for p in m.monomial), bool(np.isreal(m.coeff))) for m in a.pauli_sum]
    s = a + b
    close(smat(s, n), A + B, 'sum')
    frame('sum')
    d = a - b
    close(smat(d, n), A - B, 'difference')
    frame('difference')
    close(smat(b - a, n), B - A, 'reversed difference')
    p = a * b
    close(smat(p, n), A.dot(B), 'product')
    frame('product')
    e = (a + b) - b
    close(smat(e, n), A, '(a+b)-b')
    z = complex(*c['sc']) if isinstance(c['sc'], list) else c['sc']
    t = PauliSum(a.pauli_sum)
    t.scalar_mul(z)
    close(smat(t, n), z * A, 'scalar multiple')
    frame('scalar multiple')
    need(len(s) == len(s.pauli_sum) and (not len(s) or s[0] is s.pauli_sum[0]), 'indexing')
    s.scalar_mul(3)
    frame('scaling the sum')
    close(smat(d, n), A - B, 'earlier result changed')
    for what, q in [('constructor', a), ('sum', s), ('difference', d), ('product', p), ('(a+b)-b', e)]:
        need(all(not (q[i] == q[j]) for i in range(len(q)) for j in range(i)), what + ': like terms not combined')
    # cancelled: a - a has no terms left, and neither has a term that was combined to zero
    w = a - PauliSum(a.pauli_sum)
    need(len(w) == 0 or len(a) == 0, 'a - a has terms')
    for what, terms, q in [('constructor', ma, a), ('sum', a.pauli_sum + b.pauli_sum, s)]:
        for m in terms:
            like = [x for x in terms if x == m]
            if len(like) > 1 and abs(sum(x.coeff for x in like)) < 1e-12:
                left = [x for x in q.pauli_sum if x == m and not any(x.coeff == y.coeff for y in terms)]
                need(not any(abs(x.coeff) < 1e-9 for x in left), what + ': cancelled term kept')
