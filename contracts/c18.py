"""C18: Pauli sums represent the operator sums they are built from."""
import ast
import os
import warnings
import z3
from pyded.imp import Contract, Loop, SInt, SBool, fresh, toint
from pyded.implist import *
from pyded.implist import i, j, k, d

FILE = 'oranssi/pauli.py'
ASSUMPTIONS = ['set(), list.count, in and == on monomials: one element of every class of PauliMonomial.__eq__ (whose contract, and that __hash__ agrees with it, are discharged here)',
               'copy.copy of a monomial: a new object with the same factors and coefficient (PauliMonomial defines no __copy__ or __reduce__)',
               'np.isclose(c, 0) means c == 0 (exact arithmetic)', 'filtered lists and concatenations: order, positions and sums (the statements about sums are proved by induction here)',
               'sites are ints, not bools (True == 1 but their texts differ)', 'product of monomials: the contract of PauliMonomial.__mul__ (C17): word and coefficient determined by the words and coefficients of the factors',
               'arguments outside the domain (different lengths, other types) are rejected: bounded stand-in only']
T0 = lambda a: [('the sum', a)]
rng = lambda t, l: z3.And(0 <= t, t < ln(l))


def wf(l, al):
    """monomials that exist, all on the same sites"""
    x = arr(l)[i]
    return z3.And(ln(l) >= 0, z3.ForAll([i], z3.Implies(rng(i, l), z3.And(0 <= x, x < al, SITES(W(x)) == SIG)), patterns=[x]))


def distinct(l):
    x, y = arr(l)[i], arr(l)[j]
    return z3.ForAll([i, j], z3.Implies(z3.And(rng(i, l), rng(j, l), x == y), i == j), patterns=[z3.MultiPattern(x, y)])


def no_equal(l, him):
    x, y = arr(l)[i], arr(l)[j]
    return z3.ForAll([i, j], z3.Implies(z3.And(rng(i, l), rng(j, l), i != j), z3.Not(equal_refs(him, x, y))), patterns=[z3.MultiPattern(x, y)])


def nonzero(l, hr, hi):
    x = arr(l)[i]
    return z3.ForAll([i], z3.Implies(rng(i, l), z3.Or(hr[x] != 0, hi[x] != 0)), patterns=[x])


def within(l, l0):
    return z3.ForAll([i], z3.Implies(rng(i, l), INL(l0)[arr(l)[i]]), patterns=[arr(l)[i]])


def outside(l0, hs, olds):
    """coefficients of monomials that are not in the list are unchanged"""
    return z3.And(*[z3.ForAll([d], z3.Implies(z3.Not(INL(l0)[d]), h[d] == o[d]), patterns=[h[d]]) for h, o in zip(hs, olds)])


def heap(a):
    return a['@re'].v, a['@im'].v


def oheap(o):
    return o['@re'], o['@im']


def same_total(l, hs, l0, hs0):
    return z3.And(*[total(l, h) == total(l0, h0) for h, h0 in zip(hs, hs0)])


# ------------------------------------------------------------------ simplify
def p_simplify(E, a, old, r):
    l, l0, hs, h0 = a['self'].v, old['self'], heap(a), oheap(old)
    unchanged = z3.And(l == l0, *[h == o for h, o in zip(hs, h0)])
    return [('the represented operator is the same', same_total(l, hs, l0, h0)),
            ('no two terms compare equal', no_equal(l, hs[1])),
            ('combined terms that cancel are dropped', z3.Or(unchanged, nonzero(l, *hs))),
            ('the terms are terms of the given sum', z3.And(within(l, l0), ln(l) <= ln(l0))),
            ('well-formed', z3.And(wf(l, a['@alloc'].v), distinct(l))),
            ('monomials outside the sum are unchanged', outside(l0, hs, h0))]


def g_simplify(E, a, old, r):
    """for two arbitrary positions; generalised afterwards"""
    l, him = a['self'].v, a['@im'].v
    p, q = fresh(I_, 'p'), fresh(I_, 'q')
    M = EQS(arr(l), him, arr(l)[p])
    for base, K, _, _, hs in E.keeps.values():
        for h in hs:
            E.assume(congruence(MASK(ARR(arr(base), h), K), ARR(arr(base), h), ln(base)))
    E.assume(*[f(arr(l)[p]) >= 0 for f in E.counts])
    if E.require('no two terms compare equal', z3.Implies(z3.And(rng(p, l), rng(q, l), p < q, M[p]), z3.Not(M[q]))):
        E.assume(no_equal(l, him))


def outer(E, s):
    l, hs = s['self'].v, heap(E.globals)
    l0, h0 = s.entry['self'], oheap(s.entry)
    D = s['duplicates'].v
    x = arr(l)[i]
    return [('well-formed', z3.And(wf(l, E.al.v), distinct(l))),
            ('the represented operator is the same', same_total(l, hs, l0, h0)),
            ('duplicates to come are still there, with their coefficient', z3.ForAll([d], z3.Implies(z3.And(D[d], z3.Not(s.seen[d])), z3.And(INL(l)[d], hs[0][d] == h0[0][d], hs[1][d] == h0[1][d])), patterns=[D[d]])),
            ('the terms are terms of the given sum', within(l, l0)),
            ('monomials outside the sum are unchanged', outside(l0, hs, h0)),
            ('the first duplicate shortens the list', z3.If(s.nseen == 0, z3.And(l == l0, hs[0] == h0[0], hs[1] == h0[1]), ln(l) < ln(l0)))]


def outer_hint(E, s, pre):
    l, l1 = pre['self'], s['self'].v
    n = ln(l)
    dup = s['dup'].t
    M = EQS(arr(l), pre['@im'], dup)
    f = arr(s['remove_idx'].v)[0]
    K = E.keeps.get(l1.get_id())
    if K is not None:
        g = arr(s['remove_idx'].v)[1]
        E.assume(K[1][f] == K[3](f), K[1][g] == K[3](g))
    for part, h1 in ((0, E.hr.v), (1, E.hi.v)):
        h = (pre['@re'], pre['@im'])[part]
        b = ARR(arr(l), h)
        b1 = ARR(arr(l), h1)
        if K is not None:
            b1 = MASK(b1, K[1])
        E.assume(gather(b, b1, M, f, n), zero(MASK(b, M), n))


def inner(E, s):
    l, hs = s['self'].v, heap(E.globals)
    R = s['remove_idx'].v
    dup = s['dup'].t
    M = EQS(arr(l), hs[1], dup)
    c = s['coeff']
    x, y = arr(R)[i], arr(R)[j]
    return [('indices found so far', z3.And(0 <= ln(R), ln(R) <= s.nseen, z3.ForAll([i], z3.Implies(rng(i, R), z3.And(0 <= x, x < s.nseen, M[x])), patterns=[x]))),
            ('in increasing order', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln(R)), x < y), patterns=[z3.MultiPattern(x, y)])),
            ('none is missing', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s.nseen, M[j]), z3.Exists([i], z3.And(rng(i, R), x == j))), patterns=[M[j]])),
            ('the duplicate itself is found', z3.Implies(IDX(l, dup) < s.nseen, ln(R) > 0)),
            ('their total coefficient', z3.Implies(W(dup) == WS, z3.And(*[v == SUM(MASK(ARR(arr(l), h), M), s.nseen) for v, h in zip((c.re, c.im), hs)])))]


def inner_hint(E, s, pre):
    l, hs = s['self'].v, heap(E.globals)
    M = EQS(arr(l), hs[1], s['dup'].t)
    for h in hs:
        E.assume(unfold(MASK(ARR(arr(l), h), M), s.nseen - 1))


def inner0(f):
    def g(E, s):
        l, hs = s['self'].v, heap(E.globals)
        M = EQS(arr(l), hs[1], s['dup'].t)
        for h in hs:
            E.assume(SUM(MASK(ARR(arr(l), h), M), 0) == 0)
        return f(E, s)
    return g


# ------------------------------------------------------------------ constructor
def fresh_result(E, a, old, o):
    """the monomials of the sum are new ones; those that existed keep their coefficient"""
    al0 = old['@alloc']
    x = arr(o.v)[i]
    return [('the monomials of the result are copies', z3.And(wf(o.v, a['@alloc'].v), distinct(o.v), z3.ForAll([i], z3.Implies(rng(i, o.v), x >= al0), patterns=[x]))),
            ('monomials that existed are unchanged', z3.And(a['@alloc'].v >= al0, *[z3.ForAll([d], z3.Implies(d < al0, h[d] == h0[d]), patterns=[h[d]]) for h, h0 in zip(heap(a), oheap(old))])),
            ('no two terms compare equal', no_equal(o.v, a['@im'].v))]


def combined(o, a, l, h0):
    """nothing was combined, or what is left is not zero"""
    x, y = arr(l)[i], arr(l)[j]
    return z3.Or(z3.And(ln(o.v) == ln(l), no_equal(l, h0[1])), nonzero(o.v, *heap(a)))


def p_init(E, a, old, r):
    l, h0 = a['list_of_pauli_monomials'].v, oheap(old)
    return [('the sum represents the sum of the monomials', same_total(a['self'].v, heap(a), l, h0))] + fresh_result(E, a, old, a['self']) + \
        [('combined terms that cancel are dropped', combined(a['self'], a, l, h0))]


def g_init(E, a, old, r):
    """nothing combined: for two arbitrary positions of the given list; generalised afterwards"""
    o, l, h0 = a['self'], a['list_of_pauli_monomials'].v, oheap(old)
    p, q, c1, c2 = [fresh(I_, x) for x in 'pqcc']
    E.assume(c1 == arr(o.v)[p], c2 == arr(o.v)[q])
    some = z3.And(rng(p, l), rng(q, l), p != q, equal_refs(h0[1], arr(l)[p], arr(l)[q]))
    if E.require('combined terms that cancel are dropped', z3.Or(nonzero(o.v, *heap(a)), z3.And(ln(o.v) == ln(l), z3.Not(some)))):
        E.assume(combined(o, a, l, h0))


# ------------------------------------------------------------------ arithmetic
def g_add(E, a, old, r):
    """the terms of the operands are not changed by what was done before the lists were joined"""
    for x, y, hs in E.concats:
        for l in (x, y):
            for h, h0 in zip(hs, oheap(old)):
                E.assume(congruence(ARR(arr(l), h), ARR(arr(l), h0), ln(l)))


def result(r):
    if not isinstance(r, SumObj):
        raise Unsupported('result is not a sum')
    return r


def operand(name):
    return lambda E, a: [(f'{n} is well-formed', z3.And(wf(a[n].v, a['@alloc'].v), distinct(a[n].v))) for n in name]


def p_add(sign):
    def f(E, a, old, r):
        l, m, h0 = old['self'], old['other'], oheap(old)
        o = result(r)
        return [('represents the ' + ('sum' if sign > 0 else 'difference'), z3.And(*[total(o.v, h) == total(l, g) + sign * total(m, g) for h, g in zip(heap(a), h0)]))] + fresh_result(E, a, old, o)
    return f


def p_mul(E, a, old, r):
    l, m, h0 = old['self'], old['other'], oheap(old)
    o = result(r)
    return [('represents the product', z3.And(*[total(o.v, h) == SUM(f(arr(l), arr(m), *h0, ln(m)), ln(l)) for h, f in zip(heap(a), ROW)]))] + fresh_result(E, a, old, o)


def new_terms(E, s):
    """common to both loops of the product"""
    l, al0 = s['new_pauli_sum'].v, s.entry['@alloc'] if not E.open else E.open[0].entry['@alloc']
    first = (E.open[0] if E.open else s).entry
    x = arr(l)[i]
    return l, first, [('new terms exist, on the same sites', z3.And(wf(l, E.al.v), z3.ForAll([i], z3.Implies(rng(i, l), x >= al0), patterns=[x]), E.al.v >= al0)),
                      ('monomials that existed are unchanged', z3.And(*[z3.ForAll([d], z3.Implies(d < al0, h[d] == h0[d]), patterns=[h[d]]) for h, h0 in zip(heap(E.globals), oheap(first))]))]


def rows(E, s, first):
    a, b = s['self'].v, s['other'].v
    return [f(arr(a), arr(b), *oheap(first), ln(b)) for f in ROW]


def cells(E, s, first, q):
    a, b = s['self'].v, s['other'].v
    return [f(arr(a), arr(b), *oheap(first), q) for f in CELL]


def mul_outer(E, s):
    l, first, inv = new_terms(E, s)
    if z3.is_int_value(s.nseen):
        E.assume(*[SUM(t, 0) == 0 for t in rows(E, s, first)], *[SUM(ARR(arr(l), h), 0) == 0 for h in heap(E.globals)])
    return inv + [('total of the rows so far', z3.And(*[total(l, h) == SUM(t, s.nseen) for h, t in zip(heap(E.globals), rows(E, s, first))]))]


def mul_inner(E, s):
    l, first, inv = new_terms(E, s)
    up = E.open[-1]
    cs = cells(E, s, first, up.nseen)
    if z3.is_int_value(s.nseen):
        E.assume(*[SUM(t, 0) == 0 for t in cs])
    return inv + [('total of the rows and entries so far', z3.And(*[total(l, h) == SUM(t, up.nseen) + SUM(c, s.nseen) for h, t, c in zip(heap(E.globals), rows(E, s, first), cs)]))]


def mul_outer_hint(E, s, pre):
    E.assume(*[unfold(t, s.nseen - 1) for t in rows(E, s, s.entry)])


def mul_inner_hint(E, s, pre):
    first, up = E.open[0].entry, E.open[-1]
    E.assume(*[unfold(c, s.nseen - 1) for c in cells(E, s, first, up.nseen)])
    l0, l1 = pre['new_pauli_sum'], s['new_pauli_sum'].v
    for h1, h0 in zip(heap(E.globals), oheap(pre)):
        E.assume(unfold(ARR(arr(l1), h1), ln(l0)), congruence(ARR(arr(l1), h1), ARR(arr(l0), h0), ln(l0)))


def p_scale(E, a, old, r):
    l, h0 = a['self'].v, oheap(old)
    z = comp(a['scalar'])
    want = cmul((total(l, h0[0]), total(l, h0[1])), (z.re, z.im))
    x = arr(l)[i]
    return [('represents the scalar multiple', z3.And(*[total(l, h) == w for h, w in zip(heap(a), want)])),
            ('monomials outside the sum are unchanged', outside(l, heap(a), h0))]


def g_scale(E, a, old, r):
    l, h0 = a['self'].v, oheap(old)
    z = comp(a['scalar'])
    x, y = arr(l)[i], arr(l)[j]
    b0 = [ARR(arr(l), h) for h in h0]
    E.assume(scaled([ARR(arr(l), h) for h in heap(a)], *b0, (z.re, z.im), ln(l)))


def scale_inv(E, s):
    l, hs, h0 = s['self'].v, heap(E.globals), oheap(s.entry)
    z = comp(s['scalar'])
    x = arr(l)[i]
    new = cmul((h0[0][x], h0[1][x]), (z.re, z.im))
    return [('terms visited are multiplied', z3.And(*[z3.ForAll([i], z3.Implies(rng(i, l), h[x] == z3.If(i < s.nseen, w, g[x])), patterns=[x]) for h, g, w in zip(hs, h0, new)])),
            ('monomials outside the sum are unchanged', outside(l, hs, h0))]


def new_sum(E):
    return SumObj(fresh(Lst, 'sum'))


def p_item(E, a, old, r):
    if not isinstance(r, SRef):
        raise Unsupported('item of a sum')
    return [('the term at the index', r.t == arr(a['self'].v)[toint(a['item'])])]


ONE = ['@re', '@im', '@alloc']
C = {
    'simplify': Contract(['self'], lambda E, a: [('well-formed', z3.And(wf(a['self'].v, a['@alloc'].v), distinct(a['self'].v)))], p_simplify, lambda E: None, ['self', '@re', '@im'], ghost=g_simplify,
                         loops=[Loop(outer, hint=outer_hint), Loop(inner0(inner), hint=inner_hint, types={'coeff': 'complex', 'remove_idx': 'int'})], measure=lambda E, a: ln(a['self'].v)),
    '__init__': Contract(['self', 'list_of_pauli_monomials'], lambda E, a: [('monomials on the same sites', wf(a['list_of_pauli_monomials'].v, a['@alloc'].v))], p_init, lambda E: None, ['self'] + ONE, ghost=g_init),
    '__add__': Contract(['self', 'other'], operand(['self', 'other']), p_add(1), new_sum, ONE, ghost=g_add),
    '__sub__': Contract(['self', 'other'], operand(['self', 'other']), p_add(-1), new_sum, ONE, ghost=g_add),
    '__mul__': Contract(['self', 'other'], operand(['self', 'other']), p_mul, new_sum, ONE,
                        loops=[Loop(mul_outer, hint=mul_outer_hint, types={'new_pauli_sum': 'ref'}), Loop(mul_inner, hint=mul_inner_hint, types={'new_pauli_sum': 'ref'})]),
    'scalar_mul': Contract(['self', 'scalar'], operand(['self']), p_scale, lambda E: None, ['@re', '@im'], ghost=g_scale, loops=[Loop(scale_inv)]),
    '__getitem__': Contract(['self', 'item'], lambda E, a: operand(['self'])(E, a) + [('index in range', rng(toint(a['item']), a['self'].v))], p_item, None),
    '__len__': Contract(['self'], operand(['self']), lambda E, a, old, r: [('number of terms', toint(r) == ln(a['self'].v))], None),
}


def setup(*kinds):
    def f(E):
        E.heaps()
        a = {}
        for name, kd in kinds:
            a[name] = a[kd] if isinstance(kd, str) else kd(E)
        return a
    return f


asum = new_sum
alist = lambda E: LV(fresh(Lst, 'given'), 'ref')


def lemma(name, prem, claim, facts):
    """base and step of an induction"""
    n = z3.Int('n')
    return [(f'{name}: base', z3.Implies(z3.And(n >= 0, *prem), claim(z3.IntVal(0))), facts),
            (f'{name}: step', z3.Implies(z3.And(k >= 0, k < n, claim(k), *prem), claim(k + 1)), facts)]


# special methods of the classes that the contracts account for
SPECIAL = {'PauliMonomial': {'__init__', '__mul__', '__eq__', '__len__', '__lt__', '__hash__', '__repr__', '__tex__', '__str__', '__getitem__', '__call__'},
           'PauliSum': {'__init__', '__getitem__', '__len__', '__mul__', '__add__', '__sub__', '__repr__', '__tex__', '__str__'}}


def foreign(tree, cls):
    """anything in the classes that would change what attributes, copies or operators mean"""
    if len(cls) != 1:
        return 'definition of the class'
    for c in tree.body:
        if not isinstance(c, ast.ClassDef) or c.name not in SPECIAL:
            continue
        if c.decorator_list or c.keywords or [ast.unparse(b) for b in c.bases] not in ([], ['object']):
            return f'bases of {c.name}'
        for d in c.body:
            if isinstance(d, ast.Expr) and isinstance(d.value, ast.Constant) or isinstance(d, ast.Pass):
                continue
            if not isinstance(d, ast.FunctionDef) or d.decorator_list and not (c.name == 'PauliSum' and all(ast.unparse(x) == 'staticmethod' for x in d.decorator_list)):
                return f'{c.name}: line {d.lineno}'
            if d.name.startswith('__') and d.name.endswith('__') and d.name not in SPECIAL[c.name] or d.name in ('coeff', 'pauli_sum', 'monomial', 'locations'):
                return f'{c.name}.{d.name}'
    for n in ast.walk(tree):
        # attributes of the classes set from outside
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in SPECIAL:
            return f'line {n.lineno}: attribute of a class'
    return None


def prove(kk):
    from contracts import c18eq
    c18eq.prove(kk)
    with open(os.path.join(kk.repo, FILE)) as f, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(f.read())
    cls = [c for c in tree.body if isinstance(c, ast.ClassDef) and c.name == 'PauliSum']
    bad = foreign(tree, cls)
    if bad:
        kk.rep.unsupported.append(('pauli.PauliSum', bad))
        return
    mod = ast.Module(body=cls[0].body, type_ignores=[])
    mod.whole = tree
    P = 'oranssi.pauli.PauliSum.'
    one, two, same = ('self', asum), ('other', asum), ('other', 'self')
    kk.z3lemmas(P + 'simplify', 'lemmas about finite sums', [x for c in lemma_cases() for x in lemma(*c)], AXIOMS[1:2])
    kk.hoare(P + 'simplify', 'contract', mod, C, 'simplify', AXIOMS, setup(one), LExec)
    kk.hoare(P + '__init__', 'contract', mod, C, '__init__', AXIOMS, setup(one, ('list_of_pauli_monomials', alist)), LExec)
    for f in ('__add__', '__sub__', '__mul__'):
        kk.hoare(P + f, 'contract', mod, C, f, AXIOMS, setup(one, two), LExec)
        kk.hoare(P + f, 'a sum with itself', mod, C, f, AXIOMS, setup(one, same), LExec)
    kk.hoare(P + 'scalar_mul', 'contract', mod, C, 'scalar_mul', AXIOMS, setup(one, ('scalar', lambda E: SC(z3.Real('zr'), z3.Real('zi')))), LExec)
    kk.hoare(P + '__getitem__', 'contract', mod, C, '__getitem__', AXIOMS, setup(one, ('item', lambda E: SInt(z3.Int('item')))), LExec)
    kk.hoare(P + '__len__', 'contract', mod, C, '__len__', AXIOMS, setup(one), LExec)
