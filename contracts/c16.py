"""C16: single-site Pauli algebra."""
from contracts.pauliset import *

PA = 'oranssi.pauli.'
ASSUMPTIONS = ['sympy coefficients are covered by the concrete cases only']
LET = 'IXYZ'


def product_of(g, h):
    """(letter, phase) with sigma_g sigma_h = phase sigma_letter, from the matrices"""
    A, B_ = MAT[LET[g]], MAT[LET[h]]
    M = [[sum(A[i][k] * B_[k][j] for k in (0, 1)) for j in (0, 1)] for i in (0, 1)]
    for k in range(4):
        for ph in (1, -1, 1j, -1j):
            if all(M[i][j] == ph * MAT[LET[k]][i][j] for i in (0, 1) for j in (0, 1)):
                return k, ph
    raise AssertionError('Pauli group')


def prove(k):
    n, a, b = integer('a'), cplx('u'), cplx('v')
    m, g = integer('b'), integer('g')
    x = real('x')
    pre = [T.ge0(n)]

    def mk(I, *args, **kw):
        return I.call(I.lookup_qual(PA + 'Pauli'), list(args), kw)

    def is_pauli(I, p, site, gam, coeff, ob, what):
        ob(f'{what}: a Pauli', p.cls.name == 'Pauli')
        ob(f'{what}: site', lambda: veq(I, I.attr(p, 'alpha'), num(site), 'site'))
        ob(f'{what}: letter', lambda: veq(I, I.attr(p, 'gamma'), gam, 'letter'))
        ob(f'{what}: coefficient', lambda: poly_eq(I, to_poly(I.attr(p, 'coeff')), coeff, 'coefficient'))

    ctor = PA + 'Pauli.__init__'
    for gi, gl in enumerate(LET):
        for gam in (gi, gl):
            k.verify(ctor, f'construct[{gam!r}]', lambda I: {'args': []}, lambda I, ctx, kind, p, ob: is_pauli(I, p, n, gi, a, ob, 'constructed'), pre, call=lambda I, ctx: mk(I, num(n), gam, num(a)))
            k.verify(ctor, f'construct[{gam!r},real]', lambda I: {'args': []}, lambda I, ctx, kind, p, ob: is_pauli(I, p, n, gi, x, ob, 'constructed'), pre, call=lambda I, ctx: mk(I, num(n), gam, coeff=num(x)))
            k.verify(ctor, f'construct[{gam!r},default]', lambda I: {'args': []}, lambda I, ctx, kind, p, ob: is_pauli(I, p, n, gi, ONE, ob, 'constructed'), pre, call=lambda I, ctx: mk(I, num(n), gam))
    BOTH = ('raise', 'return')

    def exactly(dom):
        def post(I, ctx, kind, val, ob):
            if kind == 'raise':
                ob('rejected with AssertionError', val.exc == 'AssertionError', val.exc)
                ob('rejected only outside the domain', T.bnot(dom))
            else:
                ob('accepted only inside the domain', dom)
        return post

    def rejects(I, ctx, kind, val, ob):
        ob('rejected with AssertionError', kind == 'raise' and val.exc == 'AssertionError', f'{kind} {getattr(val, "exc", "")}')
    z = integer('z')
    k.verify(ctor, 'site: every int', lambda I: {'args': []}, exactly(T.ge0(z)), [], expect=BOTH, call=lambda I, ctx: mk(I, num(z), 'X'))
    k.verify(ctor, 'letter: every int', lambda I: {'args': []}, exactly(T.band(T.ge0(g), T.le(g, T.const(3)))), pre, expect=BOTH, call=lambda I, ctx: mk(I, num(n), num(g)))
    for what, args in {'site a number that is no int': lambda: (num(x), 'X'), 'site a string': lambda: ('0', 'X'), 'site None': lambda: (None, 'X'), 'letter unknown': lambda: (num(n), 'Q'),
                       'letter two letters': lambda: (num(n), 'XY'), 'letter lower case': lambda: (num(n), 'x'), 'letter empty': lambda: (num(n), ''), 'letter a number that is no int': lambda: (num(n), num(x)),
                       'letter None': lambda: (num(n), None), 'letter a list': lambda: (num(n), PyList([Seg1('X')])), 'coefficient a string': lambda: (num(n), 'X', 'c'),
                       'coefficient None': lambda: (num(n), 'X', None), 'coefficient a list': lambda: (num(n), 'X', PyList([Seg1(num(x))])), 'coefficient an int': lambda: (num(n), 'X', num(z))}.items():
        k.verify(ctor, f'{what}', lambda I: {'args': []}, rejects, pre, expect=BOTH, call=lambda I, ctx: mk(I, *args()))
    mul = PA + 'Pauli.__mul__'

    def operands(I, ctx, gi, hi):
        ctx['p'], ctx['q'] = mk(I, num(n), gi, num(a)), mk(I, num(n), hi, num(b))
        return I.call(I.attr(ctx['p'], '__mul__'), [ctx['q']], {})
    for gi in range(4):
        for hi in range(4):
            r, ph = product_of(gi, hi)

            def post(I, ctx, kind, p, ob):
                is_pauli(I, p, n, r, T.mul(T.const(ph), T.smul(a, b)), ob, 'product')
                is_pauli(I, ctx['p'], n, gi, a, ob, 'left operand')
                is_pauli(I, ctx['q'], n, hi, b, ob, 'right operand')
                ob('product: a new object', p is not ctx['p'] and p is not ctx['q'])
            k.verify(mul, f'product[{LET[gi]}{LET[hi]}]', lambda I: {'args': []}, post, pre, call=lambda I, ctx: operands(I, ctx, gi, hi))

            def post(I, ctx, kind, p, ob):
                if kind == 'raise':
                    ob('rejected with AssertionError', p.exc == 'AssertionError', p.exc)
                    ob('only different sites are rejected', T.bnot(T.eq(n, m)))
                else:
                    ob('different sites are rejected', T.eq(n, m))
            k.verify(mul, f'sites[{LET[gi]}{LET[hi]}]', lambda I: {'args': []}, post, pre + [T.ge0(m)], expect=BOTH,
                     call=lambda I, ctx: I.call(I.attr(mk(I, num(n), gi, num(a)), '__mul__'), [mk(I, num(m), hi, num(b))], {}))

            def post(I, ctx, kind, p, ob):
                t = p
                want = T.eq(n, m) if gi == hi else False
                if isinstance(t, bool):
                    ob('equal exactly when site and letter agree', want if t else (T.bnot(want) if isinstance(want, B) else not want))
                else:
                    ob('equal only when site and letter agree', T.bor(T.bnot(t), want) if isinstance(want, B) else T.bnot(t))
                    ob('equal when site and letter agree', T.bor(t, T.bnot(want)) if isinstance(want, B) else True)
            k.verify(PA + 'Pauli.__eq__', f'equality[{LET[gi]}{LET[hi]}]', lambda I: {'args': []}, post, pre + [T.ge0(m)],
                     call=lambda I, ctx: I.truth(I.call(I.attr(mk(I, num(n), gi, num(a)), '__eq__'), [mk(I, num(m), hi, num(b))], {})))

    for gi in range(4):
        def post(I, ctx, kind, p, ob):
            is_pauli(I, p, n, gi, T.conj(a), ob, 'conjugate')
        k.verify(PA + 'Pauli.conj', f'conj[{LET[gi]}]', lambda I: {'args': []}, post, pre, call=lambda I, ctx: I.call(I.attr(mk(I, num(n), gi, num(a)), 'conj'), [], {}))
