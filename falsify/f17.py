"""C17: Pauli monomials."""
from falsify.common import *
from falsify.f16 import val, enc
from oranssi.pauli import Pauli, PauliMonomial


LABELS = [[0, 1, 2, 3, 4], [2, 5, 10, 11, 100], [0, 9, 10, 19, 20], [7, 8, 12, 64, 1000], [1, 3, 5, 30, 31]]


def rand_mono(r, sites, real=False):
    k = len(sites)
    return [[int(s), 'IXYZ'[int(r.randint(4))], enc(complex(r.randn(), 0 if real else r.randn()))] for s in sites]


def cases(tier, r):
    q = 1 if tier == 'quick' else 10
    for i in range(80 * q):
        n = int(r.randint(1, 6))
        a = r.permutation(n)[:int(r.randint(1, min(n, 4) + 1))]
        b = r.permutation(n)[:int(r.randint(1, min(n, 4) + 1))]
        if i % 10 == 0:
            b = a
        yield {'t': 'pair', 'n': n, 'a': rand_mono(r, a), 'b': rand_mono(r, b, i % 5 == 0), 'mod': i % 3, 'lab': i % 5}
    for i in range(20 * q):
        n = int(r.randint(2, 5))
        yield {'t': 'chain', 'n': n, 'ms': [rand_mono(r, r.permutation(n)[:int(r.randint(1, n + 1))]) for _ in range(4)], 'lab': i % 5}
    yield {'t': 'reject', 'w': 'dup'}
    yield {'t': 'reject', 'w': 'type'}
    yield {'t': 'reject', 'w': 'eqlen'}
    for i in range(10):
        yield {'t': 'export', 'n': 5, 'a': rand_mono(r, r.permutation(5)[:int(r.randint(1, 5))]), 'lab': i % 5}


LAB = list(range(5))


def mono(m):
    return PauliMonomial([Pauli(LAB[s], g, coeff=complex(*z)) for s, g, z in m])


def spec(m, n):
    M = np.eye(2 ** n, dtype=complex)
    for s, g, z in m:
        M = complex(*z) * embed(PAULI[g], [s], n).dot(M)
    return M


def mat(m, n):
    """matrix of a monomial: its coefficient times its letters"""
    M = val(m.coeff) * np.eye(2 ** n, dtype=complex)
    for p in m.monomial:
        M = embed(PAULI['IXYZ'[p.gamma]], [LAB.index(p.alpha)], n).dot(M)
    return M


def run(c):
    if c['t'] == 'reject':
        f = {'dup': lambda: PauliMonomial([Pauli(0, 'X'), Pauli(0, 'Y')]), 'type': lambda: PauliMonomial([Pauli(0, 'X'), 'X']),
             'eqlen': lambda: mono([[0, 'X', [1, 0]]]) == mono([[0, 'X', [1, 0]], [1, 'X', [1, 0]]])}[c['w']]
        return raises(AssertionError, f, c['w'])
    n = c['n']
    LAB[:] = LABELS[c.get('lab', 0)]
    if c['t'] == 'export':
        m = mono(c['a'])
        so = sorted(c['a'])
        need(m.to_oranssi() == (''.join(g for s, g, z in so if g != 'I'),) + tuple(LAB[s] for s, g, z in so if g != 'I'), 'to_oranssi %s' % (m.to_oranssi(),))
        need(len(m) == len(so) and [m[i].alpha for i in range(len(so))] == [LAB[s] for s, g, z in so], 'order of sites')
        need(list(m.locations) == [LAB[s] for s, g, z in so], 'locations')
        return
    if c['t'] == 'chain':
        ms = [mono(m) for m in c['ms']]
        M = np.eye(2 ** n)
        for m in c['ms']:
            M = M.dot(spec(m, n))
        left = ((ms[0] * ms[1]) * ms[2]) * ms[3]
        right = ms[0] * (ms[1] * (ms[2] * ms[3]))
        close(mat(left, n), M, 'product of four (left)')
        close(mat(right, n), M, 'product of four (right)')
        A, B = spec(c['ms'][0], n), spec(c['ms'][1], n)
        C = spec(c['ms'][2], n)
        K = ms[0].commutator(ms[1])
        close(mat(K * ms[2], n), (A.dot(B) - B.dot(A)).dot(C), 'commutator used in a product')
        AB = A.dot(B) - B.dot(A)
        close(mat(ms[2].commutator(K), n), C.dot(AB) - AB.dot(C), 'nested commutator')
        return
    a, b = mono(c['a']), mono(c['b'])
    A, B = spec(c['a'], n), spec(c['b'], n)
    if c['mod'] == 1:
        a.coeff = a.coeff * (0.5 - 2j)
        A = A * (0.5 - 2j)
    close(mat(a, n), A, 'construction')
    p = a * b
    close(mat(p, n), A.dot(B), 'product')
    need(sorted(set(a.locations) | set(b.locations)) == list(p.locations) == [x.alpha for x in p.monomial], 'sites of the product')
    k = a.commutator(b)
    close(mat(k, n), A.dot(B) - B.dot(A), 'commutator')
    need(bool(a.commutes_with(b)) == (np.max(np.abs(A.dot(B) - B.dot(A))) < 1e-9), 'commutes_with')
    close(mat(a, n), A, 'left operand changed')
    close(mat(b, n), B, 'right operand changed')
    close([val(x.coeff) for x in b.monomial], [complex(*z) for s, g, z in sorted(c['b'])], 'coefficients of the operand changed')
    close(mat(p, n), A.dot(B), 'earlier product changed')
    need((a == mono(c['a'])) or np.isreal(a.coeff) != np.isreal(mono(c['a']).coeff), 'equality')
    if len(a) == len(b):
        same = all(x.alpha == y.alpha and x.gamma == y.gamma for x, y in zip(a.monomial, b.monomial)) and bool(np.isreal(a.coeff)) == bool(np.isreal(b.coeff))
        need(bool(a == b) == same, 'equality compares sites, letters and realness')
        if same:
            need(hash(a) == hash(b), 'equal monomials hash differently')
    z = val(mono(c['a']).conj().coeff)
    close(z, val(mono(c['a']).coeff).conjugate(), 'conj')
    if c['mod'] == 1:
        z0 = val(a.coeff)
        close(val(a.conj().coeff), z0.conjugate(), 'conj after a coefficient change')
