"""C15: rotosolve returns exp(-i t P/2) U and the optimal angle t, for every hermitian involution P."""
import z3
from fractions import Fraction
from contracts.layers import *
from contracts.optspec import PIp
from pyded.libnp import trig

ASSUMPTIONS = ['exp(-i h P) = cos(h) 1 - i sin(h) P for P^2 = 1 (power series); cos and sin of sums; (cos a, sin a) = (y, x)/sqrt(x^2 + y^2) for a = arctan2(x, y)',
               'the observable QNode evaluates <0|U^dagger O U|0> (property C04)']
ROTO = LAY + 'rotosolve'


def expand(p, P):
    """rewrite every exp(c P) by the series identity, also under sums"""
    out = Poly({}, p.shape)
    for (sc, ms), c in p.terms.items():
        q = T.const(c)
        for a, e in sc:
            q = T.smul(q, T.power(expand_atom(a, P), e))
        if ms:
            w = None
            for a, mod in ms:
                x = T.apply_mod_raw(expand_atom(a, P), mod)
                w = x if w is None else T.matmul(w, x)
            q = T.scale(q, w)
        out = T.add(out, Poly(q.terms, p.shape))
    return out


def expand_atom(a, P):
    if a.kind == 'sum':
        n, bn, body = a.args
        names, vs, b = T.open_binder(bn, body)
        return T.bigsum(n, names[0], expand(b, P))
    if a.kind == 'ip':
        q = None
        for x, mod in a.args[0]:
            y = T.apply_mod_raw(expand_atom(x, P), mod)
            q = y if q is None else T.matmul_raw(q, y)
        q.shape = (ONE, ONE)
        return T.as_scalar(T.collapse(q))
    if a.kind == 'expm':
        h = multiple(a.args[0], P)
        if h is not None:
            h = T.mul(T.const(1j), h)        # exp(-i h P)
            return T.sub(T.scale(trig('cos', h), T.eye(P.shape[0])), T.scale(T.mul(T.const(1j), trig('sin', h)), P))
    return a.poly()


def multiple(M, P):
    """c with M = c P"""
    (w, _), = P.terms.items()
    out = {}
    for (sc, ms), c in M.terms.items():
        if ms != w[1]:
            return None
        out[(sc, ())] = c
    return Poly(out, ())


def solve_linear(X, basis):
    """rational coefficients x with X = sum x_i basis_i, or None"""
    keys = sorted({k for p in [X] + basis for k in p.terms}, key=str)
    rows = []
    for k in keys:
        z = [p.terms.get(k) for p in basis + [X]]
        rows.append([v.re if v is not None else Fraction(0) for v in z])
        rows.append([v.im if v is not None else Fraction(0) for v in z])
    nb = len(basis)
    piv, r = [], 0
    for c in range(nb):
        t = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if t is None:
            return None
        rows[r], rows[t] = rows[t], rows[r]
        d = rows[r][c]
        rows[r] = [x / d for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c] != 0:
                f = rows[i][c]
                rows[i] = [x - f * y for x, y in zip(rows[i], rows[r])]
        r += 1
    if any(any(x != 0 for x in row) for row in rows[r:]):
        return None
    return [rows[i][nb] for i in range(nb)]


def lemma(hyps, goal):
    s = z3.Solver()
    s.set('timeout', 30000)
    s.add(*hyps)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return True
    if r == z3.sat:
        raise NotEqual(f'counterexample {s.model()}')
    raise Unsupported('arithmetic lemma undecided')


def energy(V, n, m):
    v = T.matmul(V, libqml.e0(n))
    return Sum(m, lambda i: T.matmul(T.matmul(T.conj(v), obs_full(i, n)), v))


def moments(U, P, n, m):
    """<M>, <PMP>, <i[P,M]> in the state U|0>"""
    v = state_of(U, n)
    ev = lambda f: T.as_scalar(Sum(m, lambda i: T.as_scalar(T.matmul(T.matmul(T.conj(v), f(obs_full(i, n))), v))))
    return [ev(lambda O: O), ev(lambda O: T.matmul(T.matmul(P, O), P)), ev(lambda O: T.scale(T.const(1j), T.sub(T.matmul(P, O), T.matmul(O, P))))]


def optimal(I, eta, U, P, n, m):
    """eta = q pi/2 +- arctan2(X, Y) minimises E(t) = A + B cos t + C sin t"""
    q, sgn, at = Fraction(0), None, None
    for (sc, ms), c in eta.terms.items():
        if len(sc) != 1 or sc[0][1] != 1 or c.im != 0:
            raise Unsupported('form of the angle')
        a = sc[0][0]
        if a.kind == 'atan2' and at is None and abs(c.re) == 1:
            at, sgn = a, int(c.re)
        elif a.poly().terms.keys() == PIp.terms.keys():
            q = c.re * 2
        else:
            raise Unsupported('form of the angle')
    if at is None or q.denominator != 1:
        raise Unsupported('form of the angle')
    mom = moments(U, P, n, m)
    cx = [solve_linear(expand(T.as_scalar(to_poly(x)), P), mom) for x in at.args]
    if None in cx:
        raise NotEqual('arguments of arctan2 are not combinations of <M>, <PMP>, <i[P,M]>')
    m0, m1, m2, sa, ca, R, c, s = z3.Reals('m0 m1 m2 sa ca R c s')
    X, Y = [sum(z3.RealVal(str(f)) * v for f, v in zip(k, (m0, m1, m2))) for k in cx]
    B_, C_ = (m0 - m1) / 2, m2 / 2
    # cos and sin of sgn*a + q pi/2
    ce, se = ca, sgn * sa
    for _ in range(int(q) % 4):
        ce, se = -se, ce
    # r = sqrt(X^2+Y^2); arctan2(0, 0) = 0
    hyps = [sa * sa + ca * ca == 1, R >= 0, R * R == X * X + Y * Y, R * sa == X, R * ca == Y, c * c + s * s == 1]
    lemma(hyps, B_ * ce + C_ * se <= B_ * c + C_ * s)


def prove(k):
    n, m, t = integer('n'), integer('m'), real('t')
    N = T.pow2(n)
    U, P = matrix('U', N, unit=True), matrix('P', N, unit=True, herm=True)
    base = [T.le(ONE, n), T.ge0(m)]

    def qnode(I):
        return I.lib.qml.q_QNode([I.lookup_qual('oranssi.circuit_tools.circuit_observable_from_unitary'), libqml.device(n)], {})

    def post(I, ctx, kind, val, ob):
        if not ob('a pair (unitary, angle)', isinstance(val, tuple) and len(val) == 2 and isinstance(val[0], Arr) and is_num(val[1])):
            return
        eta = to_poly(val[1])
        ob('the unitary is exp(-i t P/2) U', lambda: veq(I, val[0], Arr(T.matmul(T.expm(T.scale(T.mul(T.const(-0.5j), eta), P)), U)), 'unitary'))

        def shape():
            # E(t) = c^2 <M> + s^2 <PMP> + c s <i[P,M]>, c = cos(t/2), s = sin(t/2)
            h = T.scale(T.const(0.5), t)
            c, s = trig('cos', h), trig('sin', h)
            E = expand(energy(T.matmul(T.expm(T.scale(T.mul(T.const(-0.5j), t), P)), U), n, m), P)
            m0, m1, m2 = moments(U, P, n, m)
            poly_eq(I, T.as_scalar(E), T.add(T.add(T.smul(T.smul(c, c), m0), T.smul(T.smul(s, s), m1)), T.smul(T.smul(c, s), m2)), 'energy')
            # = A + B cos t + C sin t with cos t = c^2 - s^2, sin t = 2 c s
            a, b, d, x, y = z3.Reals('m0 m1 m2 c s')
            lemma([x * x + y * y == 1], x * x * a + y * y * b + x * y * d == (a + b) / 2 + (a - b) / 2 * (x * x - y * y) + d / 2 * (2 * x * y))
        ob('lemma: the total energy at angle t is A + B cos t + C sin t', shape)
        ob('no other angle gives a smaller total expectation value', lambda: optimal(I, eta, U, P, n, m))
    for np_ in (1, 2, 3):
        k.verify(ROTO, f'optimal angle[{np_}]', lambda I: {'args': [Arr(P), observables(m), qnode(I), Arr(U), np_]}, post, base, [GFO])
