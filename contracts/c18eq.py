"""C18: == and hash of monomials (contracts used for the sums)."""
from contracts.paulispec import *


def same_text(I, a, b, what='text'):
    """the same characters: built in the same way from the same values"""
    if isinstance(a, str) and isinstance(b, str):
        if a != b:
            raise NotEqual(f'{what}: {a!r} and {b!r}')
        return
    if isinstance(a, V.SymStr) or isinstance(b, V.SymStr):
        x, y = V.strcode(a), V.strcode(b)
        if x is None or y is None:
            raise NotEqual(what)
        return require(I, T.eq(x, y), what)
    if isinstance(a, V.JoinStr) and isinstance(b, V.JoinStr):
        same_text(I, a.sep, b.sep, what)
        require(I, T.eq(a.seg.cnt, b.seg.cnt), what + ': number of joined strings')
        nm, i = T.newvar('i')
        i = to_int(i)
        return under(I, [T.ge0(i), T.lt(i, a.seg.cnt)], lambda: same_text(I, a.seg.fn(i), b.seg.fn(i), what))
    if type(a) is V.OpaqueStr and type(b) is V.OpaqueStr:
        if len(a.parts) != len(b.parts):
            raise NotEqual(what)
        for x, y in zip(a.parts, b.parts):
            same_text(I, x, y, what)
        return
    if is_num(a) and is_num(b) and not isinstance(a, (str, bool)) and not isinstance(b, (str, bool)):
        x, y = to_poly(a), to_poly(b)
        if x.is_int() != y.is_int():
            raise NotEqual(what + ': numbers of different types')
        return require(I, T.eq(x, y), what)
    if a is None and b is None:
        return
    raise Unsupported(f'{what}: {type(a).__name__}, {type(b).__name__}')


def text_of(v):
    if isinstance(v, SymObj) and v.kind == 'hash':
        return v.attrs['of']
    raise Unsupported('hash of something that is no text')


def paulis(k):
    """Pauli.__repr__(coeff=False): site and letter determine the text"""
    n, a, b = integer('a'), cplx('u'), cplx('v')
    for g in range(4):
        def call(I, ctx):
            t = [I.call(I.attr(I.call(I.lookup_qual(PAULI), [num(n), g, num(z)], {}), '__repr__'), [], {'coeff': False}) for z in (a, b)]
            ctx['t'] = t

        def post(I, ctx, kind, val, ob):
            ob('site and letter determine the text', lambda: same_text(I, *ctx['t']))
        k.verify(PAULI + '.__repr__', f'text without coefficient[{g}]', lambda I: {'args': []}, post, [T.ge0(n)], call=call)


def prove(k):
    paulis(k)
    A, B_ = Mono('A'), Mono('B')
    pre = A.pre + B_.pre
    i, = [to_int(T.newvar('i')[1])]
    real = lambda M: T.eq(T.imag_part(M.coeff), T.ZERO)

    def post(I, ctx, kind, val, ob):
        if kind == 'raise':
            ob('rejected with AssertionError', val.exc == 'AssertionError')
            ob('only different lengths are rejected', T.bnot(T.eq(A.K, B_.K)))
            return
        ob('different lengths are rejected', T.eq(A.K, B_.K))
        nm, x = T.newvar('i')
        x = to_int(x)
        same = T.forall(A.K, nm, T.band(T.eq(A.site(x), B_.site(x)), T.eq(A.let(x), B_.let(x))))
        want = T.band(same, T.bor(T.band(real(A), real(B_)), T.band(T.bnot(real(A)), T.bnot(real(B_)))))
        b = to_b(I.truth(val))
        ob('equal only if words and realness agree', T.bor(T.bnot(b), want))
        ob('equal if words and realness agree', T.bor(b, T.bnot(want)))
        A.unchanged(I, ob, 'left operand')
        B_.unchanged(I, ob, 'right operand')
    k.verify(MONO + '.__eq__', 'equality', lambda I: {'args': [A.build(I), B_.build(I)]}, post, pre, [PAULI, MONO], expect=('return', 'raise'))

    nm, x = T.newvar('i')
    x = to_int(x)
    equal = [T.eq(A.K, B_.K), T.forall(A.K, nm, T.band(T.eq(A.site(x), B_.site(x)), T.eq(A.let(x), B_.let(x)))), T.bor(T.band(real(A), real(B_)), T.band(T.bnot(real(A)), T.bnot(real(B_))))]

    def hashes(I, ctx):
        p, q = A.build(I), B_.build(I)
        ctx['h'] = [I.call(I.attr(o, '__hash__'), [], {}) for o in (p, q)]

    def post(I, ctx, kind, val, ob):
        ob('equal monomials have equal hashes', lambda: same_text(I, *map(text_of, ctx['h'])))
        A.unchanged(I, ob, 'left operand')
    k.verify(MONO + '.__hash__', 'hash', lambda I: {'args': []}, post, pre + equal, [PAULI, MONO], call=hashes)

    def length(I, ctx, kind, val, ob):
        ob('number of factors', lambda: require(I, T.eq(to_poly(val), A.K), 'length'))
    k.verify(MONO + '.__len__', 'length', lambda I: {'args': [A.build(I)]}, length, A.pre, [PAULI, MONO])
