"""C17: Pauli monomials multiply, conjugate and commute as their operators."""
from contracts.paulispec import *

ASSUMPTIONS = ['sorted(xs, key=f) is a permutation of xs with non-decreasing keys; iteration over a set visits every element once, in an arbitrary order']
MUL = MONO + '.__mul__'


@contract(MUL, 'C17')
def mono_mul(I, env):
    """ensures: coefficient c_A c_B prod phases over the common sites; on each site the product letter"""
    A, B_ = [next((m for m in CUR['monos'] if m.obj is env[k]), None) for k in ('self', 'other')]
    if A is None or B_ is None:
        raise Unsupported('product of other monomials')
    o = Inst(I.lookup_qual(MONO))
    I.set(o, 'monomial', SymObj('sortedlist', {'product': (A, B_)}, key=('sorted', id(o))))
    I.set(o, 'locations', SymObj('sortedlist', {'product': (A, B_)}, key=('sortedsites', id(o))))
    c = T.smul(T.smul(A.coeff, B_.coeff), phases(I, A, B_))
    I.set(o, 'coeff', num(Poly(c.terms, (), 'complex')))
    return o


def product_factors(I, lst, A, B_):
    """exactly one factor on every site of A or B, with the letter of the product"""
    if not isinstance(lst, SymObj) or lst.kind != 'sortedlist':
        raise Unsupported('list of factors')
    if 'product' in lst.attrs:
        if lst.attrs['product'][0] is not A or lst.attrs['product'][1] is not B_:
            if set(map(id, lst.attrs['product'])) != {id(A), id(B_)}:
                raise NotEqual('product of other monomials')
        return
    bases = tuple(sorted((A.base, B_.base), key=lambda x: x[0]))
    order = [A if b[0] == A.base[0] else B_ for b in bases]
    seen = set()
    for s in lst.attrs['of']:
        nm, j = T.newvar('j')
        j = to_int(j)
        if not isinstance(s, SegMap):
            raise NotEqual('single factor')
        p = s.fn(j)
        x = to_int(to_poly(p.attrs['alpha']))
        hit = None
        for m in ((True, True), (True, False), (False, True)):
            (fs,) = I.lib.set_family((bases, frozenset([m])))
            if I.prove(T.eq(fs.cnt, s.cnt)) and S.prove(T.eq(x, to_poly(fs.fn(j))), I.facts + [T.ge0(j), T.lt(j, s.cnt)]):
                hit = m
                break
        if hit is None:
            raise Unsupported('sites of a family of factors')
        if hit in seen:
            raise NotEqual('sites listed twice')
        seen.add(hit)
        inA, inB = [t for t, o in zip(hit, order) if o is A][0], [t for t, o in zip(hit, order) if o is B_][0]
        want = pmul(A.letter_at(x), B_.letter_at(x)) if inA and inB else A.letter_at(x) if inA else B_.letter_at(x)
        under(I, [T.ge0(j), T.lt(j, s.cnt)], lambda: require(I, T.eq(to_poly(p.attrs['gamma']), want), f'letter on sites {"of both" if inA and inB else "of one operand"}'))
    if len(seen) != 3:
        raise NotEqual('sites missing')


def prove(k):
    A, B_ = Mono('A'), Mono('B')
    pre = A.pre + B_.pre
    two = lambda I: {'args': [A.build(I), B_.build(I)], 'x': CUR.__setitem__('monos', [A, B_])}

    def is_product(I, o, ob, coeff, what):
        if not ob(f'{what}: a monomial', isinstance(o, Inst) and o.cls.name == 'PauliMonomial'):
            return
        ob(f'{what}: coefficient', lambda: poly_eq(I, to_poly(I.attr(o, 'coeff')), coeff, 'coefficient'))
        ob(f'{what}: one factor per site with the letter of the matrix product', lambda: product_factors(I, I.attr(o, 'monomial'), A, B_))

    def post(I, ctx, kind, val, ob):
        is_product(I, val, ob, T.smul(T.smul(A.coeff, B_.coeff), phases(I, A, B_)), 'product')
        ob('a new monomial', val is not A.obj and val is not B_.obj)
        A.unchanged(I, ob, 'left operand')
        B_.unchanged(I, ob, 'right operand')
    k.verify(MUL, 'product', two, post, pre, [PAULI, MONO])

    def post(I, ctx, kind, val, ob):
        cc = T.smul(A.coeff, B_.coeff)
        is_product(I, val, ob, T.sub(T.smul(cc, phases(I, A, B_)), T.smul(cc, phases(I, B_, A))), 'commutator')
        A.unchanged(I, ob, 'left operand')
        B_.unchanged(I, ob, 'right operand')
    k.verify(MONO + '.commutator', 'commutator', two, post, pre, [PAULI, MONO, MUL])

    def post(I, ctx, kind, val, ob):
        cc = T.smul(A.coeff, B_.coeff)
        same = T.eq(T.smul(cc, phases(I, A, B_)), T.smul(cc, phases(I, B_, A)))
        b = to_b(I.truth(val))
        ob('true only when A B = B A', T.bor(T.bnot(b), same))
        ob('true when A B = B A', T.bor(b, T.bnot(same)))
        A.unchanged(I, ob, 'left operand')
        B_.unchanged(I, ob, 'right operand')
    k.verify(MONO + '.commutes_with', 'commutes', two, post, pre, [PAULI, MONO, MUL])
    for f in ('commutator', 'commutes_with'):
        k.verify(MONO + '.' + f, 'other operand types are rejected', lambda I: {'args': [A.build(I), num(cplx('z'))]},
                 lambda I, ctx, kind, val, ob: ob('rejected with AssertionError', kind == 'raise' and val.exc == 'AssertionError'), pre, [PAULI, MONO, MUL], expect=('raise', 'return'))

    def post(I, ctx, kind, val, ob):
        ob('returns the monomial', val is A.obj)
        ob('conjugated coefficient', lambda: poly_eq(I, to_poly(I.attr(A.obj, 'coeff')), T.conj(A.coeff), 'coefficient'))
        ob('letters and sites unchanged', lambda: factors_are(I, I.attr(A.obj, 'monomial'), A))
        ob('sites unchanged', lambda: veq(I, I.attr(A.obj, 'locations'), PyList([SegMap(A.K, lambda i: num(A.site(i)))]), 'sites'))
    k.verify(MONO + '.conj', 'conj', lambda I: {'args': [A.build(I)]}, post, A.pre, [PAULI, MONO])
    # constructor
    K = integer('K')
    site = lambda i: to_int(T.app('anysite', to_int(i)))
    let = lambda i: to_int(T.app('letA', to_int(i)))
    co = lambda i: T.app('pcA', to_int(i), typ='complex')
    S.AXIOMS['anysite'] = lambda a: [T.ge0(to_int(a.poly()))]
    i, j = [to_int(T.newvar(c)[1]) for c in 'ij']

    def construct(I, ctx):
        CUR['I'] = I
        o = Inst(I.lookup_qual(MONO))
        ctx['o'] = o
        lst = PyList([SegMap(K, lambda i: pauli_obj(site(i), let(i), co(i)))])
        ctx['list'] = lst
        I.call_body(I.lookup_qual(MONO + '.__init__'), [o, lst], {}, None)
        return o

    def post(I, ctx, kind, o, ob):
        an, a = T.newvar('a')
        bn, b = T.newvar('b')
        a, b = to_int(a), to_int(b)
        diff = T.forall(K, an, T.forall(K, bn, T.bor(T.eq(a, b), T.bnot(T.eq(site(a), site(b))))))
        if kind == 'raise':
            ob('rejected with AssertionError', o.exc == 'AssertionError', o.exc)
            ob('only repeated sites are rejected', T.bnot(diff))
            return
        ob('repeated sites are rejected', diff)
        ob('product of the coefficients', lambda: poly_eq(I, to_poly(I.attr(o, 'coeff')), prod(), 'coefficient'))
        mono, loc = I.lib.segs(I.attr(o, 'monomial')), I.lib.segs(I.attr(o, 'locations'))
        ob('number of factors', lambda: require(I, T.band(T.eq(V.seqlen(mono), K), T.eq(V.seqlen(loc), K)), 'length'))
        el = lambda t: I.lib.seg_get(tuple(mono), t)
        lc = lambda t: to_poly(I.lib.seg_get(tuple(loc), t))
        rng = [T.ge0(i), T.lt(i, K)]
        ob('sorted by site', lambda: under(I, rng + [T.lt(i, j), T.lt(j, K)], lambda: require(I, T.lt(lc(i), lc(j)), 'order')))
        ob('locations are the sites of the factors', lambda: under(I, rng, lambda: require(I, T.eq(lc(i), to_poly(el(i).attrs['alpha'])), 'location')))

        def every():
            # the position of factor i: the inverse of the permutation
            pos = []
            under(I, [T.ge0(j), T.lt(j, K)], lambda: pos.append(position(el(j), j)))
            pos, = pos
            under(I, rng, lambda: (require(I, T.band(T.ge0(pos(i)), T.lt(pos(i), K)), 'position'), require(I, T.eq(to_poly(el(pos(i)).attrs['alpha']), site(i)), 'site'),
                                   require(I, T.eq(to_poly(el(pos(i)).attrs['gamma']), let(i)), 'letter')))
        ob('every factor given is kept', every)
        ob('the list passed in is unchanged', lambda: factors_are(I, ctx['list'], type('M', (), {'K': K, 'site': staticmethod(site), 'let': staticmethod(let)})))

    def position(p, j):
        q = to_poly(p.attrs['alpha'])
        for a in S.atoms_of(q).values():
            if a.kind == 'app' and a.args[0] in loops.INVERSE and len(a.args) == 2 and a.args[1].key == j.key:
                inv = loops.INVERSE[a.args[0]]
                return lambda t: to_int(T.app(inv, to_int(t)))
        if q.key == site(j).key:
            return lambda t: to_int(t)
        raise Unsupported('position of the factors')

    def prod():
        nm, x = T.newvar('i')
        return T.bigprod(K, nm, co(to_int(x)))
    k.verify(MONO + '.__init__', 'constructor', lambda I: {'args': []}, post, [T.ge0(K)], [PAULI], expect=('return', 'raise'), call=construct)

    def bad(I, ctx):
        CUR['I'] = I
        o = Inst(I.lookup_qual(MONO))
        return I.call_body(I.lookup_qual(MONO + '.__init__'), [o, PyList([SegMap(K, lambda i: pauli_obj(site(i), let(i), co(i))), Seg1(num(cplx('z')))])], {}, None)
    k.verify(MONO + '.__init__', 'factors that are no Pauli', lambda I: {'args': []},
             lambda I, ctx, kind, val, ob: ob('rejected with AssertionError', kind == 'raise' and val.exc == 'AssertionError', str(kind)), [T.ge0(K)], [PAULI], expect=('return', 'raise'), call=bad)

    def post(I, ctx, kind, val, ob):
        sg = I.lib.segs(val)
        nm, q = T.newvar('i')
        keep = loops.filtered(A.K, nm, T.bnot(T.eq(A.let(q), ZERO)), lambda i: i)
        ob('word first', isinstance(sg[0], Seg1) and isinstance(sg[0].v, V.JoinStr) and sg[0].v.sep == '')
        if not isinstance(sg[0].v, V.JoinStr):
            return
        rng = [T.ge0(i), T.lt(i, keep.cnt)]

        def word():
            s = sg[0].v.seg
            require(I, T.eq(s.n(), keep.cnt), 'number of letters')
            under(I, rng, lambda: require(I, T.eq(V.strcode(s.fn(i)), T.ite(T.eq(A.let(keep.fn(i)), T.ONE), V.str_code('X'), T.ite(T.eq(A.let(keep.fn(i)), T.const(2)), V.str_code('Y'), V.str_code('Z')))), 'letter'))
        ob('the letters of the non-identity factors, in order of site', word)

        def sites():
            require(I, T.eq(V.seqlen(sg[1:]), keep.cnt), 'number of sites')
            under(I, rng, lambda: require(I, T.eq(to_poly(I.lib.seg_get(tuple(sg[1:]), i)), A.site(keep.fn(i))), 'site'))
        ob('the sites of the non-identity factors, in order', sites)
        A.unchanged(I, ob, 'monomial')
    k.verify(MONO + '.to_oranssi', 'export', lambda I: {'args': [A.build(I)]}, post, A.pre, [PAULI, MONO])
