"""Contracts of the Pauli classes: values of class Pauli, monomials with any number of factors."""
import ast
from contracts.pauliset import *
from contracts.c16 import product_of, LET
from pyded import solve as S
from pyded import loops

PA = 'oranssi.pauli.'
PAULI, MONO = PA + 'Pauli', PA + 'PauliMonomial'


def pmul(g, h):
    """letter of the product (integers 0..3)"""
    a, b = g.int_value(), h.int_value()
    if a is not None and b is not None:
        return T.const(product_of(a, b)[0])
    return to_int(T.app('pmul', g, h))


def phase(g, h):
    a, b = g.int_value(), h.int_value()
    if a is not None and b is not None:
        return T.const(product_of(a, b)[1])
    return T.app('phase', g, h, typ='complex')


def pauli_obj(alpha, gamma, coeff):
    """a value of class Pauli"""
    alpha, gamma = to_int(alpha), to_int(gamma)

    def binop(op, a, b, I=None):
        raise Unsupported('Pauli arithmetic')
    o = SymObj('pauli', {'alpha': num(alpha), 'gamma': num(gamma), 'coeff': num(Poly(coeff.terms, (), 'complex'))}, key=('pauli', alpha.key, gamma.key, coeff.key), isinst=('Pauli',),
               fv=alpha.fv | gamma.fv | coeff.fv)
    o.rebuild = lambda m: pauli_obj(T.t_subst(alpha, m), T.t_subst(gamma, m), T.t_subst(coeff, m))
    o.attrs['binop'] = pauli_binop
    o.attrs['eq'] = lambda other: pauli_eq(o, other)
    o.attrs['__repr__'] = Builtin('__repr__', lambda a, k: pauli_text(o, a, k))
    o.attrs['conj'] = Builtin('conj', lambda a, k: pauli_obj(alpha, gamma, T.conj(coeff)))
    return o


CUR = {}


def is_pauli(v):
    return isinstance(v, SymObj) and v.kind == 'pauli'


def pauli_binop(op, a, b):
    """Pauli.__mul__ (C16): requires equal sites; ensures letter and coefficient of the product"""
    if not isinstance(op, ast.Mult) or not is_pauli(a) or not is_pauli(b):
        raise Unsupported('Pauli arithmetic')
    I = CUR['I']
    I.used_contracts.add(PAULI + '.__mul__')
    if not I.decide(T.eq(to_poly(a.attrs['alpha']), to_poly(b.attrs['alpha']))):
        raise RaiseSig('AssertionError', 'Pauli.__mul__: sites')
    g, h = to_int(to_poly(a.attrs['gamma'])), to_int(to_poly(b.attrs['gamma']))
    return pauli_obj(to_poly(a.attrs['alpha']), pmul(g, h), T.smul(phase(g, h), T.smul(to_poly(a.attrs['coeff']), to_poly(b.attrs['coeff']))))


def pauli_text(o, args, kw):
    """Pauli.__repr__ (C18): site and letter determine the text without coefficient"""
    if args or list(kw) != ['coeff'] or kw['coeff'] is not False:
        raise Unsupported('text of a Pauli')
    CUR['I'].used_contracts.add(PAULI + '.__repr__')
    return OpaqueStr(['Pauli', o.attrs['alpha'], o.attrs['gamma']])


def pauli_eq(a, b):
    """Pauli.__eq__ (C16): the same site and the same letter"""
    if not is_pauli(b):
        raise Unsupported('comparison of a Pauli')
    CUR['I'].used_contracts.add(PAULI + '.__eq__')
    f = lambda n: T.eq(to_int(to_poly(a.attrs[n])), to_int(to_poly(b.attrs[n])))
    return from_b(T.band(f('alpha'), f('gamma')))


DISCHARGED_BY[PAULI + '.__eq__'] = 'C16'
DISCHARGED_BY[PAULI + '.__repr__'] = 'C18'
S.AXIOMS['pmul'] = lambda a: [T.ge0(to_int(a.poly())), T.le(to_int(a.poly()), T.const(3))]


def to_gamma(I, g):
    if isinstance(g, str):
        if g not in LET:
            raise RaiseSig('AssertionError', 'letter')
        return T.const(LET.index(g))
    p = to_poly(g)
    if not p.is_int() or not I.prove(T.band(T.ge0(p), T.le(p, T.const(3)))):
        raise Unsupported('call of Pauli: letter not provably valid')
    return p


@contract(PAULI, 'C16')
def Pauli(I, args, kw):
    """requires: site an int >= 0, letter 0..3 or IXYZ, numeric coefficient; ensures: that Pauli"""
    CUR['I'] = I
    names = ['alpha', 'gamma', 'coeff']
    d = dict(zip(names, args))
    d.update(kw)
    al = to_poly(d['alpha'])
    if not al.is_int() or not I.prove(T.ge0(al)):
        raise Unsupported('call of Pauli: site not provably valid')
    c = d.get('coeff', T.const(1.0))
    if not isinstance(c, (Poly, float)) or (isinstance(c, Poly) and c.pt not in ('float', 'complex', 'npfloat')):
        raise Unsupported('call of Pauli: coefficient')
    return pauli_obj(al, to_gamma(I, d['gamma']), to_poly(c))


DISCHARGED_BY[PAULI + '.__mul__'] = 'C16'


# ------------------------------------------------------------------ monomials
def family(name, K):
    """sites a(i) (pairwise different, increasing), letters g(i), factors' coefficients c(i)"""
    a, ai = 'site' + name, 'siteinv' + name

    def ax(x):
        i, p = x.args[1], to_int(x.poly())
        return [T.bor(T.lt(i, ZERO), T.le(K, i), T.band(T.ge0(p), T.eq(to_int(T.app(ai, p)), i)))]
    S.AXIOMS[a] = ax
    S.AXIOMS['let' + name] = lambda x: [T.ge0(to_int(x.poly())), T.le(to_int(x.poly()), T.const(3))]
    loops.INVERSE[a] = ai
    site = lambda i: to_int(T.app(a, to_int(i)))
    let = lambda i: to_int(T.app('let' + name, to_int(i)))
    co = lambda i: T.app('pc' + name, to_int(i), typ='complex')
    return site, let, co


class Mono:
    """an arbitrary monomial: K factors and an arbitrary coefficient"""

    def __init__(self, name):
        self.name = name
        self.K = integer('K' + name)
        self.site, self.let, self.co = family(name, self.K)
        self.coeff = cplx('c' + name)
        self.pre = [T.ge0(self.K)]
        self.base = ('site' + name, self.K)

    def build(self, I):
        CUR['I'] = I
        o = Inst(I.lookup_qual(MONO))
        I.set(o, 'locations', PyList([SegMap(self.K, lambda i: num(self.site(i)))]))
        I.set(o, 'monomial', PyList([SegMap(self.K, lambda i: pauli_obj(self.site(i), self.let(i), self.co(i)))]))
        I.set(o, 'coeff', num(self.coeff))
        self.obj = o
        return o

    def letter_at(self, x):
        """letter at a site of the monomial"""
        return self.let(to_int(T.app('siteinv' + self.name, x)))

    def unchanged(self, I, ob, what):
        o = self.obj
        nm, i = T.newvar('i')
        ob(f'{what}: coefficient unchanged', lambda: poly_eq(I, to_poly(I.attr(o, 'coeff')), self.coeff, 'coefficient'))
        ob(f'{what}: sites unchanged', lambda: veq(I, I.attr(o, 'locations'), PyList([SegMap(self.K, lambda i: num(self.site(i)))]), 'sites'))
        ob(f'{what}: factors unchanged', lambda: factors_are(I, I.attr(o, 'monomial'), self))


def factors_are(I, lst, M):
    sg = I.lib.segs(lst)
    require(I, T.eq(V.seqlen(sg), M.K), 'number of factors')
    nm, i = T.newvar('i')
    i = to_int(i)

    def one():
        p = I.lib.seg_get(tuple(sg), i)
        if not is_pauli(p):
            raise NotEqual('factor is not a Pauli')
        require(I, T.eq(to_poly(p.attrs['alpha']), M.site(i)), 'site of factor')
        require(I, T.eq(to_poly(p.attrs['gamma']), M.let(i)), 'letter of factor')
    under(I, [T.ge0(i), T.lt(i, M.K)], one)


def phases(I, A, B_):
    """product of the phases over the common sites"""
    names = {A.name: A, B_.name: B_}
    bases = tuple(sorted((A.base, B_.base), key=lambda x: x[0]))
    if A.name == B_.name:
        raise Unsupported('a monomial times itself')
    sg, = I.lib.set_family((bases, frozenset([(True, True)])))
    nm, j = T.newvar('j')
    x = to_int(to_poly(sg.fn(to_int(j))))
    return T.bigprod(sg.cnt, nm, phase(A.letter_at(x), B_.letter_at(x)))


@contract(MONO, 'C17')
def PauliMonomial(I, args, kw):
    """requires: Pauli factors on pairwise different sites; ensures: the factors sorted by site, their sites, the product of their coefficients"""
    lst = args[0] if args else kw['list_of_paulis']
    sg = tuple(I.lib.segs(lst))
    sites = []
    coeff = T.ONE
    for s in sg:
        nm, i = T.newvar('i')
        v = s.v if isinstance(s, Seg1) else s.fn(to_int(i)) if isinstance(s, SegMap) else None
        if not is_pauli(v):
            raise Unsupported('call of PauliMonomial: factors')
        c = to_poly(v.attrs['coeff'])
        if isinstance(s, Seg1):
            sites.append(Seg1(v.attrs['alpha']))
            coeff = T.smul(coeff, c)
        else:
            sites.append(SegMap(s.cnt, lambda i, s=s: s.fn(i).attrs['alpha']))
            coeff = T.smul(coeff, T.bigprod(s.cnt, nm, c))
    if not I.lib.distinct(sites):
        raise Unsupported('call of PauliMonomial: sites not provably different')
    o = Inst(I.lookup_qual(MONO))
    tok = fam('sorted', typ='int')
    I.set(o, 'monomial', SymObj('sortedlist', {'of': sg}, key=('sorted', id(o))))
    I.set(o, 'locations', SymObj('sortedlist', {'of': tuple(sites)}, key=('sortedsites', id(o))))
    I.set(o, 'coeff', num(Poly(coeff.terms, (), 'complex')))
    return o
