"""Specification of Pauli letters, words and their matrices."""
import itertools
from contracts.lib import *

MAT = {'I': [[1, 0], [0, 1]], 'X': [[0, 1], [1, 0]], 'Y': [[0, -1j], [1j, 0]], 'Z': [[1, 0], [0, -1]]}


def letter(c):
    return T.cmat([[T.C.of(x) if hasattr(T.C, 'of') else T.const(x).const_value() for x in r] for r in MAT[c]])


def word_matrix(w):
    M = letter(w[0])
    for c in w[1:]:
        M = T.kron(M, letter(c))
    return M


def select(d, xs, f):
    """f(xs[d]) for a symbolic index d"""
    r = f(xs[-1])
    for t in range(len(xs) - 2, -1, -1):
        r = T.ite(T.eq(d, T.const(t)), f(xs[t]), r)
    return r


def digit(L, r, k, i):
    return to_int(T.app('digit', T.const(len(L)), r, k, i))


def words_spec(I, L, r):
    if not isinstance(r, Poly):
        return PyList([Seg1(''.join(w)) for w in itertools.product(L, repeat=r)])
    cnt = to_int(T.mk('powc', T.const(len(L)), r, typ='int').poly())

    def name(k):
        return JoinStr('', SegMap(r, lambda i: SymStr(select(digit(L, r, k, i), L, V.str_code))))
    return PyList([SegMap(cnt, name)])


def op_spec(I, L, r, k):
    """Kronecker product over i < r of the letter digit(k, i)"""
    st = iterate(I, r, lambda j, s: {'M': Arr(T.kron(to_poly(s['M']), select(digit(L, r, k, j), L, letter)))}, M=Arr(T.ONE))
    return st['M']


def ops_spec(I, L, r):
    if not isinstance(r, Poly):
        return PyList([Seg1(Arr(word_matrix(w))) for w in itertools.product(L, repeat=r)])
    cnt = to_int(T.mk('powc', T.const(len(L)), r, typ='int').poly())
    nm, kk = T.newvar('w')
    M = to_poly(op_spec(I, L, r, to_int(kk)))
    return PyList([SegMap(cnt, lambda k: Arr(M.subst({nm: k})))])


SUN = 'oranssi.utils.get_su_n_operators'


def pword(L, n, k):
    """the Kronecker product of the letters of word k, as one opaque 2^n x 2^n matrix"""
    N = T.pow2(n)
    return T.mk('pword', L, n, k, shape=(N, N), typ='complex').poly()


@contract(SUN, 'C02')
def get_su_n_operators(I, env):
    """requires: N = 2^n; ensures: the Pauli words of length n in lexicographic order with their Kronecker products"""
    size = to_int(to_poly(env['N']))
    ident, names = env['identity'], env['return_names']
    if not isinstance(ident, bool) or not isinstance(names, bool):
        raise Unsupported('call of get_su_n_operators with symbolic flags')
    L = 'IXYZ' if ident else 'XYZ'
    n = to_int(to_poly(I.lib.np.np_log2([num(size)], {})))
    if n.int_value() is not None:
        ops, nm = ops_spec(I, L, n.int_value()), words_spec(I, L, n.int_value())
    else:
        cnt = to_int(T.mk('powc', T.const(len(L)), n, typ='int').poly())
        ops, nm = PyList([SegMap(cnt, lambda k: Arr(pword(L, n, k)))]), words_spec(I, L, n)
    return (ops, nm) if names else ops
