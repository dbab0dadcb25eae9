"""C16: single-site Pauli products."""
from falsify.common import *
import itertools
import sympy as sp
from oranssi.pauli import Pauli

CO = [1.0, -2.5, 1j, 0.3 - 0.7j, 0.0, 'x', 'y*x', 'x**2']


def co(c):
    if isinstance(c, str):
        return sp.sympify(c)
    if isinstance(c, list):
        return complex(*c)
    return c


def val(c):
    """numeric value of a coefficient (x = 0.7, y = -1.3)"""
    if isinstance(c, sp.Basic):
        return complex(c.subs({'x': 0.7, 'y': -1.3}).evalf())
    return complex(c)


def enc(c):
    return [c.real, c.imag] if isinstance(c, complex) else c


def cases(tier, r):
    for g, h in itertools.product('IXYZ', repeat=2):
        for a, b in ([(0, 0), (1, 2), (2, 3), (3, 1), (5, 3), (5, 6), (7, 5), (6, 7), (0, 4)] if tier == 'quick' else itertools.product(range(8), repeat=2)):
            yield {'t': 'mul', 'g': g, 'h': h, 'a': enc(CO[a]), 'b': enc(CO[b]), 'site': int(r.randint(0, 9)), 'ints': bool(r.randint(2))}
    for i in range(12):
        yield {'t': 'chain', 'ws': ''.join(r.choice(list('IXYZ'), 5)), 'cs': [enc(complex(*x)) for x in r.randn(5, 2)]}
    for w in ['site', 'badletter', 'badint', 'negsite', 'floatsite', 'badcoeff', 'intcoeff', 'listgamma']:
        yield {'t': 'reject', 'w': w}
    for g in 'IXYZ':
        yield {'t': 'misc', 'g': g, 'c': enc(complex(r.randn(), r.randn()))}


def run(c):
    if c['t'] == 'reject':
        bad = {'site': lambda: Pauli(0, 'X') * Pauli(1, 'X'), 'badletter': lambda: Pauli(0, 'Q'), 'badint': lambda: Pauli(0, 4), 'negsite': lambda: Pauli(-1, 'X'),
               'floatsite': lambda: Pauli(0.5, 'X'), 'badcoeff': lambda: Pauli(0, 'X', coeff='a'), 'intcoeff': lambda: Pauli(0, 'X', coeff=[1.0]), 'listgamma': lambda: Pauli(0, ['X'])}[c['w']]
        return raises(AssertionError, bad, c['w'])
    idx = 'IXYZ'
    if c['t'] == 'misc':
        z = complex(*c['c'])
        p = Pauli(3, c['g'], coeff=z)
        q = Pauli(3, idx.index(c['g']), coeff=2.0)
        need(p.gamma == q.gamma == idx.index(c['g']) and p.alpha == 3, 'letters and integers name the same Pauli')
        need(p == q, 'equality ignores coefficients')
        need(not (Pauli(2, c['g']) == p), 'different sites are equal')
        close(val(p.coeff), z, 'coefficient')
        close(val(Pauli(1, c['g']).coeff), 1.0, 'default coefficient')
        close(val(Pauli(1, c['g'], coeff=z).conj().coeff), z.conjugate(), 'conj')
        return
    if c['t'] == 'chain':
        ps = [Pauli(2, g, coeff=complex(*x)) for g, x in zip(c['ws'], c['cs'])]
        M = np.eye(2)
        for g, x in zip(c['ws'], c['cs']):
            M = M.dot(complex(*x) * PAULI[g])
        left = ps[0]
        for p in ps[1:]:
            left = left * p
        right = ps[-1]
        for p in ps[-2::-1]:
            right = p * right
        for q in (left, right):
            close(val(q.coeff) * PAULI[idx[q.gamma]], M, 'product of five')
        return
    a, b = co(c['a']), co(c['b'])
    g, h = (idx.index(c['g']), idx.index(c['h'])) if c['ints'] else (c['g'], c['h'])
    p, q = Pauli(c['site'], g, coeff=a), Pauli(c['site'], h, coeff=b)
    m = p * q
    close(val(m.coeff) * PAULI[idx[m.gamma]], val(a) * PAULI[c['g']].dot(val(b) * PAULI[c['h']]), 'product %s*%s' % (c['g'], c['h']))
    need(m.alpha == c['site'], 'site of the product')
    need(p.gamma == idx.index(c['g']) and q.gamma == idx.index(c['h']) and p.alpha == q.alpha == c['site'], 'operands changed')
    close([val(p.coeff), val(q.coeff)], [val(a), val(b)], 'operand coefficients changed')
