"""C21: Bloch-sphere conversions."""
import z3
from contracts.pauliset import *
from contracts.c15 import lemma
from pyded.libnp import trig, PI
from pyded import solve as S

PL = 'oranssi.plot_utils.'
ASSUMPTIONS = ['arctan2(y, x) is the angle in (-pi, pi] with (cos, sin) = (x, y)/sqrt(x^2 + y^2) (0 at the origin); arccos(c) the one in [0, pi] with cosine c',
               'matplotlib calls at import have no effect on the conversions']
SU2 = 'oranssi.utils.get_su_2_operators'


@contract(SU2, 'C02')
def get_su_2_operators(I, env):
    """ensures: the matrices of X, Y, Z (I first if identity=True), with their names if return_names=True"""
    if not isinstance(env['identity'], bool) or not isinstance(env['return_names'], bool):
        raise Unsupported('call of get_su_2_operators with symbolic flags')
    L = 'IXYZ' if env['identity'] else 'XYZ'
    ops = PyList([Seg1(Arr(letter(c))) for c in L])
    return (ops, PyList([Seg1(c) for c in L])) if env['return_names'] else ops


def trig_norm(p):
    """sin^2 = 1 - cos^2"""
    for _ in range(20):
        done = True
        out = ZERO
        for (sc, ms), c in p.terms.items():
            q = T.const(c)
            for a, e in sc:
                if a.kind == 'sin' and e >= 2:
                    co = T.mk('cos', a.args[0], typ='real').poly()
                    q = T.smul(q, T.smul(T.power(a.poly(), e - 2), T.sub(ONE, T.smul(co, co))))
                    done = False
                else:
                    q = T.smul(q, T.power(a.poly(), e))
            out = T.add(out, q)
        p = out
        if done:
            return p
    return p


def resolved(I, p):
    """case distinction over the conditions left in a term"""
    p = S.simplify_under(p, I.facts)
    for _ in range(20):
        t = S.find_ites(p)
        if not t:
            return p
        I.decide(t[0].args[0])
        p = S.simplify_under(p, I.facts)
    raise Unsupported('form of the angle')


def prove(k):
    phi, theta = real('phi'), real('theta')
    x, y, z = real('x'), real('y'), real('z')

    def build(I):
        return {'args': [num(phi), num(theta)]}

    def post(I, ctx, kind, val, ob):
        e = T.sym_entries(to_poly(val)) if isinstance(val, Arr) else None
        if e is None:
            raise Unsupported('form of the density matrix')
        h = T.scale(T.const(0.5), theta)
        a, b = trig('cos', h), T.smul(T.add(trig('cos', phi), T.mul(T.const(1j), trig('sin', phi))), trig('sin', h))
        psi = [a, b]
        for i in (0, 1):
            for j in (0, 1):
                ob(f'entry {i}{j}', lambda: poly_eq(I, trig_norm(e[i][j]), trig_norm(T.smul(psi[i], T.conj(psi[j]))), 'entry'))
    k.verify(PL + 'spherical_to_state', 'state of the angles', build, post, [])
    # state -> angles
    two_pi = T.scale(T.const(2), PI)

    def angles(I, val, ob):
        if not ob('a pair of angles', isinstance(val, tuple) and len(val) == 2 and all(is_num(v) for v in val)):
            return None
        ph, th = to_poly(val[0]), to_poly(val[1])
        ob('0 <= phi < 2 pi', T.band(T.ge0(ph), T.lt(ph, two_pi)))
        ob('0 <= theta <= pi', T.band(T.ge0(th), T.le(th, PI)))
        return ph, th

    def rho(x, y, z):
        H = T.const(0.5)
        w = T.scale(T.const(0.5j), y)
        xx = T.scale(H, x)
        return T.entry_matrix([[T.scale(H, T.add(ONE, z)), T.sub(xx, w)], [T.add(xx, w), T.scale(H, T.sub(ONE, z))]])

    def pure(I, ctx, kind, val, ob):
        r = angles(I, val, ob)
        if r is None:
            return
        ph, th = [resolved(I, p) for p in r]
        at = list(th.terms.items())
        if len(at) != 1 or at[0][1] != T.C1 or len(at[0][0][0]) != 1 or at[0][0][0][0][0].kind != 'arccos':
            raise Unsupported('form of theta')
        ct = S.simplify_under(at[0][0][0][0][0].args[0], I.facts)
        ctx_ = S.Ctx()
        X, Y, Z = [ctx_.poly(v) for v in (x, y, z)]
        C = ctx_.poly(ct)
        base = [X * X + Y * Y + Z * Z == 1]
        c, s, R, ca, sa = z3.Reals('ct st R ca sa')
        ob('cos(theta) = z', lambda: lemma(base, C == Z))
        # sin(theta) >= 0 on [0, pi]
        th_h = base + [c == C, c * c + s * s == 1, s >= 0]
        A = T.mk('atan2', y, x, typ='real').poly()
        full = T.ite(T.ge0(A), A, T.add(A, two_pi))
        gap = T.sub(two_pi, full)
        if ph.is_zero():
            ob('phi is reported as 0 only within the rounding window', lambda: require(I, T.bor(T.le(gap, T.const(Fraction(11, 10000))), T.eq(A, ZERO)), 'phi'))
            return
        a2 = [(a, cf) for (sc, ms), cf in ph.terms.items() for a, e in sc if a.kind == 'atan2']
        if len(a2) != 1:
            raise Unsupported('form of phi')
        rest = T.sub(ph, T.scale(T.const(a2[0][1]), a2[0][0].poly()))
        turns = [t for t in (0, 1, -1) if T.sub(rest, T.scale(T.const(t), two_pi)).is_zero()]
        if a2[0][1] != T.C1 or not turns:
            raise Unsupported('form of phi')
        Y2, X2 = [ctx_.poly(S.simplify_under(v, I.facts)) for v in a2[0][0].args]
        hy = th_h + [ca * ca + sa * sa == 1, R >= 0, R * R == X2 * X2 + Y2 * Y2, R * ca == X2, R * sa == Y2]
        ob('sin(theta) cos(phi) = x', lambda: lemma(hy, s * ca == X))
        ob('sin(theta) sin(phi) = y', lambda: lemma(hy, s * sa == Y))
        ob('values of phi within 1e-3 of 2 pi are reported as 0', lambda: require(I, T.lt(T.const(Fraction(1, 1000)), gap), 'phi'))

    k.verify(PL + 'state_to_spherical', 'pure states', lambda I: {'args': [Arr(rho(x, y, z))]}, pure, [T.eq(T.add(T.add(T.smul(x, x), T.smul(y, y)), T.smul(z, z)), ONE)], [SU2])
    e = [[T.add(real(f'r{i}{j}'), T.mul(T.const(1j), real(f's{i}{j}'))) for j in (0, 1)] for i in (0, 1)]
    tol = T.const(Fraction(1, 10 ** 8) + Fraction(1, 10 ** 5))

    def any_matrix(I, ctx, kind, val, ob):
        d = T.absval(T.sub(T.add(e[0][0], e[1][1]), ONE))
        if kind == 'raise':
            ob('rejected with AssertionError', val.exc == 'AssertionError', val.exc)
            ob('only matrices whose trace is not 1 are rejected', T.lt(ZERO, d))
        else:
            ob('matrices whose trace is not 1 are rejected', T.le(d, T.const(Fraction(1, 1000))))
            angles(I, val, ob)
    k.verify(PL + 'state_to_spherical', 'any matrix', lambda I: {'args': [Arr(T.entry_matrix(e))]}, any_matrix, [], [SU2], expect=('return', 'raise'))
