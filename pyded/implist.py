"""Lists, references to objects with a mutable coefficient, and finite sums for the Hoare-style verifier (imp.py).

A list is an array with a length.  An object (a Pauli monomial) is an integer reference: its word W(r) never changes, its
coefficient is held in the arrays @re and @im, shared by every alias; references below @alloc exist.  SUM(a, n) is the sum of
the first n entries of an array of reals.  ARR(list, heap) has the coefficient of entry j if its word is the word WS (an
arbitrary constant) and 0 otherwise, so SUM(ARR(l, h), n) is the total coefficient of WS in a list."""
import ast
import z3
from .imp import Coll, Exec, Heap, Lib, Bound, SBool, SInt, fresh, toint, boolterm, State
from .values import Unsupported

I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
IA, RA, BA = z3.ArraySort(I_, I_), z3.ArraySort(I_, R_), z3.ArraySort(I_, B_)
_L = z3.Datatype('Lst')
_L.declare('mk', ('arr', IA), ('n', I_))
Lst = _L.create()
mk, arr, ln = Lst.mk, Lst.arr, Lst.n
SUM = z3.Function('SUM', RA, I_, R_)
ARR = z3.Function('ARR', IA, RA, RA)
MASK = z3.Function('MASK', RA, BA, RA)
W = z3.Function('word', I_, I_)            # word of a monomial
SITES = z3.Function('sites', I_, I_)       # sites of a word
WMUL = z3.Function('wmul', I_, I_, I_)     # word of the product
PC = [z3.Function(f'product_coeff_{p}', I_, I_, R_, R_, R_, R_, R_) for p in ('re', 'im')]   # words and coefficients of the factors
EQS = z3.Function('equal_to', IA, RA, I_, BA)   # positions of a list that are == to an object
INL = z3.Function('members', Lst, BA)
IDX = z3.Function('position', Lst, I_, I_)
MULC = [z3.Function(f'cmul_{p}', R_, R_, R_, R_, R_) for p in ('re', 'im')]      # product of two complex numbers
LR = (IA, IA, RA, RA)
CELL = [z3.Function(f'cell_{p}', *LR, I_, RA) for p in ('re', 'im')]
ROW = [z3.Function(f'row_{p}', *LR, I_, RA) for p in ('re', 'im')]
WS = z3.Int('any_word')
SIG = z3.Int('the_sites')
_a, _b = z3.Consts('a b', RA)
_r, _h, _m, _l = z3.Const('r', IA), z3.Const('h', RA), z3.Const('m', BA), z3.Const('l', Lst)
i, j, k, d, w1, w2 = z3.Ints('i j k d w1 w2')


def equal_refs(him, x, y):
    """PauliMonomial.__eq__: the same word, both coefficients real or both not"""
    return z3.And(W(x) == W(y), (him[x] == 0) == (him[y] == 0))


AXIOMS = [z3.ForAll([_r, _h, j], ARR(_r, _h)[j] == z3.If(W(_r[j]) == WS, _h[_r[j]], 0), patterns=[ARR(_r, _h)[j]]),
          z3.ForAll([_a, _m, j], MASK(_a, _m)[j] == z3.If(_m[j], _a[j], 0), patterns=[MASK(_a, _m)[j]]),
          z3.ForAll([_r, _h, d, j], EQS(_r, _h, d)[j] == equal_refs(_h, _r[j], d), patterns=[EQS(_r, _h, d)[j]]),
          z3.ForAll([_l, j], z3.Implies(z3.And(0 <= j, j < ln(_l)), INL(_l)[arr(_l)[j]]), patterns=[z3.MultiPattern(INL(_l), arr(_l)[j])]),
          # (position: the first one, and 0 for objects that are not in the list; the second part keeps the triggers from matching without end)
          z3.ForAll([_l, d], z3.And(z3.Implies(INL(_l)[d], z3.And(0 <= IDX(_l, d), IDX(_l, d) < ln(_l), arr(_l)[IDX(_l, d)] == d)), IDX(_l, arr(_l)[IDX(_l, d)]) == IDX(_l, d)), patterns=[INL(_l)[d]]),
          z3.ForAll([w1, w2], z3.Implies(SITES(w1) == SITES(w2), SITES(WMUL(w1, w2)) == SITES(w1)), patterns=[WMUL(w1, w2)])]


# of two lists with a heap: CELL(i)[j] is the coefficient of the product of terms i and j if its word is WS; ROW[i] sums over j
_x, _y, _g = z3.Const('x', IA), z3.Const('y', IA), z3.Const('g', RA)
_nb = z3.Int('nb')
_u, _v = z3.Reals('u v')
for _p in (0, 1):
    AXIOMS.append(z3.ForAll([_u, _v], MULC[_p](0, 0, _u, _v) == 0, patterns=[MULC[_p](0, 0, _u, _v)]))
    _c = CELL[_p](_x, _y, _g, _h, i)[j]
    AXIOMS += [z3.ForAll([_x, _y, _g, _h, i, j], _c == z3.If(WMUL(W(_x[i]), W(_y[j])) == WS, PC[_p](W(_x[i]), W(_y[j]), _g[_x[i]], _h[_x[i]], _g[_y[j]], _h[_y[j]]), 0), patterns=[_c]),
               z3.ForAll([_x, _y, _g, _h, _nb, i], ROW[_p](_x, _y, _g, _h, _nb)[i] == SUM(CELL[_p](_x, _y, _g, _h, i), _nb), patterns=[ROW[_p](_x, _y, _g, _h, _nb)[i]])]


def total(l, h):
    return SUM(ARR(arr(l), h), ln(l))


# lemmas about sums, as instances; each is proved by induction (see LEMMAS)
def unfold(a, n):
    return z3.And(SUM(a, 0) == 0, z3.Implies(n >= 0, SUM(a, n + 1) == SUM(a, n) + a[n]))


def congruence(a, b, n):
    return z3.Implies(z3.And(n >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), a[j] == b[j]))), SUM(a, n) == SUM(b, n))


def zero(a, n):
    return z3.Implies(z3.And(n >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), a[j] == 0))), SUM(a, n) == 0)


def gather(b, b1, m, f, n):
    """the entries of m are replaced by their sum at f"""
    return z3.Implies(z3.And(0 <= f, f < n, m[f], b1[f] == SUM(MASK(b, m), n), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, j != f), b1[j] == z3.If(m[j], 0, b[j])))),
                      SUM(b1, n) == SUM(b, n))


def concat(c, a, b, n1, n2):
    return z3.Implies(z3.And(n1 >= 0, n2 >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n1), c[j] == a[j])), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n2), c[n1 + j] == b[j]))),
                      SUM(c, n1 + n2) == SUM(a, n1) + SUM(b, n2))


def cmul(z, w):
    """(re, im) of a product; with a number as a factor it is multiplied out"""
    out = [f(*z, *w) for f in MULC]
    num = lambda q: all(z3.is_rational_value(z3.simplify(x)) for x in q)
    if num(z) or num(w):
        return [z[0] * w[0] - z[1] * w[1], z[0] * w[1] + z[1] * w[0]]
    return out


def scaled(c, a, b, z, n):
    """entries multiplied by z; c = (re, im) of the products"""
    return z3.And(*[z3.Implies(z3.And(n >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), c[p][j] == cmul((a[j], b[j]), z)[p]))), SUM(c[p], n) == cmul((SUM(a, n), SUM(b, n)), z)[p]) for p in (0, 1)])


def lemma_cases():
    """(name, premises, claim(k)): base and step of an induction on k from 0 to n"""
    a, b, c, m, f, n, n1 = z3.Const('a', RA), z3.Const('b', RA), z3.Const('c', RA), z3.Const('m', BA), z3.Int('f'), z3.Int('n'), z3.Int('n1')
    x, y = z3.Reals('x y')
    cnt, idx, src = z3.Function('CNT', I_, I_), z3.Const('idx', IA), z3.Const('src', IA)
    rng = lambda t: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), t))
    un = lambda *ts: [z3.And(SUM(t, 0) == 0, SUM(t, k + 1) == SUM(t, k) + t[k]) for t in ts]
    ma = MASK(a, m)
    return [('equal entries, equal sums', [rng(a[j] == b[j])], lambda k: SUM(a, k) == SUM(b, k), un(a, b)),
            ('a sum of zeros is zero', [rng(a[j] == 0)], lambda k: SUM(a, k) == 0, un(a)),
            ('entries replaced by their sum', [0 <= f, f < n, m[f], z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, j != f), b[j] == z3.If(m[j], 0, a[j])))],
             lambda k: SUM(b, k) == SUM(a, k) - SUM(ma, k) + z3.If(f < k, b[f], 0), un(a, b, ma)),
            ('kept prefix of a filtered list', [cnt(0) == 0, z3.ForAll([j], cnt(j + 1) == cnt(j) + z3.If(m[j], 1, 0), patterns=[cnt(j)]), rng(m[j])], lambda k: cnt(k) == k, []),
            ('concatenation', [n1 >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), c[n1 + j] == b[j]))],
             lambda k: SUM(c, n1 + k) == SUM(c, n1) + SUM(b, k), un(b) + [SUM(c, n1 + k + 1) == SUM(c, n1 + k) + c[n1 + k]]),
            ('entries multiplied by a number (real part)', [rng(c[j] == a[j] * x - b[j] * y)], lambda k: SUM(c, k) == SUM(a, k) * x - SUM(b, k) * y, un(a, b, c)),
            ('entries multiplied by a number (imaginary part)', [rng(c[j] == a[j] * y + b[j] * x)], lambda k: SUM(c, k) == SUM(a, k) * y + SUM(b, k) * x, un(a, b, c)),
            # the list comprehension [e for j, e in enumerate(l) if m(j)]: entry CNT(j) is the j-th element, CNT(j) the number kept before it
            ('filtered list', [cnt(0) == 0, z3.ForAll([j], cnt(j + 1) == cnt(j) + z3.If(m[j], 1, 0), patterns=[cnt(j)]), rng(z3.Implies(m[j], b[cnt(j)] == a[j]))],
             lambda k: z3.And(cnt(k) >= 0, cnt(k) <= k, SUM(b, cnt(k)) == SUM(ma, k)), un(ma) + [SUM(b, 0) == 0, SUM(b, cnt(k) + 1) == SUM(b, cnt(k)) + b[cnt(k)]])]


class LV:
    """the value of a list (not to be changed)"""
    def __init__(self, v, elt):
        self.v, self.elt = v, elt


class HList(Heap):
    def __init__(self, v, elt=None):
        super().__init__(v, 'list')
        self.elt, self.frozen = elt, False


class SumObj(Heap):
    """a PauliSum: v is its list"""
    def __init__(self, v):
        super().__init__(v, 'sum')


class GHeap(Heap):
    pass


class SRef:
    def __init__(self, t):
        self.t = t

    def rebuild(self, f):
        return SRef(f(self.t))


class SCopy:
    """copy.copy of a monomial, not yet allocated"""
    def __init__(self, t):
        self.t = t

    def rebuild(self, f):
        return SCopy(f(self.t))


class SC:
    """complex number; `pt`: Python type, if it matters"""
    def __init__(self, re, im):
        self.re, self.im = re, im

    def rebuild(self, f):
        return SC(f(self.re), f(self.im))


class NpBool(SBool):
    def rebuild(self, f):
        return NpBool(f(self.t))


class RSet(Heap):
    """a set of references"""
    def __init__(self, v, count):
        super().__init__(v, 'set')
        self.count = count


def comp(v):
    """as a complex number"""
    if isinstance(v, SC):
        return v
    if isinstance(v, bool):
        raise Unsupported('boolean as a number')
    if isinstance(v, int):
        return SC(z3.RealVal(v), z3.RealVal(0))
    if isinstance(v, float):
        return SC(z3.RealVal(str(v)), z3.RealVal(0))
    if isinstance(v, complex):
        return SC(z3.RealVal(str(v.real)), z3.RealVal(str(v.imag)))
    if isinstance(v, SInt):
        return SC(z3.ToReal(v.t), z3.RealVal(0))
    raise Unsupported(f'{type(v).__name__} as a number')


class LExec(Exec):
    ELEM = 'PauliMonomial'
    SUMC = 'PauliSum'

    def heaps(self):
        """arbitrary initial heap"""
        self.globals = {'@re': GHeap(fresh(RA, 're'), '@re'), '@im': GHeap(fresh(RA, 'im'), '@im'), '@alloc': GHeap(fresh(I_, 'alloc'), '@alloc')}
        self.assume(self.globals['@alloc'].v >= 0)
        self.keeps, self.counts, self.concats = {}, [], []
        return self.globals

    hr = property(lambda self: self.globals['@re'])
    hi = property(lambda self: self.globals['@im'])
    al = property(lambda self: self.globals['@alloc'])

    # ------------------------------------------------------------- lists
    def elem(self, elt, t):
        if elt == 'ref':
            return SRef(t)
        if elt == 'int':
            return SInt(t)
        raise Unsupported('elements of a list')

    def seq(self, l, elt):
        c = Coll([I_], lambda x: z3.And(0 <= x, x < ln(l)), lambda x: self.elem(elt, arr(l)[x]), ln(l))
        c.ordered = True
        c.lst = l
        return c

    def as_coll(self, v):
        if isinstance(v, (LV, HList)):
            return self.seq(v.v, v.elt)
        if isinstance(v, RSet):
            return Coll([I_], lambda x: v.v[x], lambda x: SRef(x), v.count)
        if isinstance(v, SumObj):
            raise Unsupported('iteration over a sum')
        return super().as_coll(v)

    def tolist(self, v):
        """LV: the list of the elements, in order"""
        if isinstance(v, HList):
            if v.elt is None and z3.is_int_value(z3.simplify(ln(v.v))):
                v.elt = 'ref'
            return LV(v.v, v.elt)
        if isinstance(v, LV):
            return v
        if not isinstance(v, Coll):
            raise Unsupported(f'{type(v).__name__} as a list')
        self.no_quant()
        if v.ordered:
            if getattr(v, 'lst', None) is not None:
                x = fresh(I_, 'x')
                e = v.elem(x)
                return LV(v.lst, 'int' if isinstance(e, SInt) else 'ref')
            n, x = v.count, fresh(I_, 'x')
            e = v.elem(x)
            l = fresh(Lst, 'lst')
            self.assume(ln(l) == n)
            if isinstance(e, SCopy):
                before = self.hr.v, self.hi.v
                a0 = self.alloc(n, lambda q: v.elem(q).t, W)
                y = arr(l)[x]
                self.assume(z3.ForAll([x], z3.And(y == a0 + x, z3.Implies(z3.And(0 <= x, x < n), z3.And(W(y) == W(e.t), self.hr.v[y] == before[0][e.t], self.hi.v[y] == before[1][e.t]))), patterns=[y]))
                base = getattr(v.src, 'lst', None)
                if base is not None and z3.simplify(e.t).eq(z3.simplify(arr(base)[x])):
                    for p in (0, 1):
                        self.assume(congruence(ARR(arr(l), (self.hr.v, self.hi.v)[p]), ARR(arr(base), before[p]), n))
                return LV(l, 'ref')
            self.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), arr(l)[x] == e.t), patterns=[arr(l)[x]]))
            return LV(l, 'int' if isinstance(e, SInt) else 'ref' if isinstance(e, SRef) else None)
        if v.src is not None:
            return self.filter(v)
        raise Unsupported('order of the elements of a list')

    def filter(self, v):
        """[e for e in l if c]: increasing positions"""
        n, x, y = v.src.count, fresh(I_, 'x'), fresh(I_, 'y')
        K = fresh(BA, 'keep')
        self.assume(z3.ForAll([x], K[x] == v.dom(x), patterns=[K[x]]))
        l, pos, inv = fresh(Lst, 'kept'), fresh(IA, 'pos'), fresh(IA, 'inv')
        e = v.elem(x)
        if not isinstance(e, (SRef, SInt)):
            raise Unsupported('elements of a filtered list')
        base = getattr(v.src, 'over', getattr(v.src, 'lst', None))
        on = [K[x]] + ([arr(base)[x]] if base is not None else [])
        at = lambda q: v.elem(q).t
        m = ln(l)
        self.assume(0 <= m, m <= n,
                    z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < m), z3.And(0 <= pos[x], pos[x] < n, K[pos[x]], inv[pos[x]] == x, arr(l)[x] == at(pos[x]))), patterns=[arr(l)[x]]),
                    z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < m), pos[x] < pos[y]), patterns=[z3.MultiPattern(pos[x], pos[y])]),
                    z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n, K[x]), z3.And(0 <= inv[x], inv[x] < m, pos[inv[x]] == x, arr(l)[inv[x]] == at(x))), patterns=on),
                    z3.ForAll([x], z3.And(inv[pos[inv[x]]] == inv[x], z3.Implies(z3.And(0 <= x, x < n, z3.Not(K[x])), m < n)), patterns=on),     # inv is 0 where it has no meaning
                    z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n, K[x], z3.ForAll([y], z3.Implies(z3.And(0 <= y, y < x), K[y]), patterns=[K[y]])), inv[x] == x), patterns=[K[x]]))
        if base is not None and isinstance(e, SRef) and z3.simplify(e.t).eq(z3.simplify(arr(base)[x])):
            h = fresh(RA, 'h')
            self.assume(z3.ForAll([h], SUM(ARR(arr(l), h), m) == SUM(MASK(ARR(arr(base), h), K), n), patterns=[ARR(arr(l), h)]))
            self.keeps[l.get_id()] = (base, K, l, v.dom, (self.hr.v, self.hi.v))
        return LV(l, 'int' if isinstance(e, SInt) else 'ref')

    def alloc(self, n, of, word):
        """n new monomials, copies of of(0), ..., of(n-1)"""
        a0 = self.al.v
        x = fresh(I_, 'x')
        R, M = fresh(RA, 're'), fresh(RA, 'im')
        for new, old in ((R, self.hr.v), (M, self.hi.v)):
            self.assume(z3.ForAll([x], z3.Implies(x < a0, new[x] == old[x]), patterns=[new[x]]))
            self.assume(z3.ForAll([x], z3.Implies(z3.And(a0 <= x, x < a0 + n), z3.And(new[x] == old[of(x - a0)], W(x) == W(of(x - a0)))), patterns=[new[x]]))
        self.assume(z3.ForAll([x], z3.Implies(z3.And(a0 <= x, x < a0 + n), W(x) == W(of(x - a0))), patterns=[W(x)]))
        self.put(self.hr, R)
        self.put(self.hi, M)
        self.put(self.al, a0 + n)
        return a0

    def new_ref(self, word, re, im):
        self.no_quant()
        r = fresh(I_, 'new')
        self.assume(r == self.al.v, W(r) == word)
        self.put(self.hr, z3.Store(self.hr.v, r, re))
        self.put(self.hi, z3.Store(self.hi.v, r, im))
        self.put(self.al, self.al.v + 1)
        return SRef(r)

    # ------------------------------------------------------------- statements
    def put(self, o, v):
        if getattr(o, 'frozen', False):
            raise Unsupported('a list is changed after it was stored')
        super().put(o, v)

    def stmt(self, s, env):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Attribute):
            self.line = s.lineno
            cur = self.e_Attribute(s.target, env)
            self.assign(s.target, self.binop(s.op, cur, self.ev(s.value, env)), env)
            return
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(env.get(s.target.id), (HList, Coll)):
            raise Unsupported('list extended in place')
        if isinstance(s, ast.Assert):
            self.line = s.lineno
            self.require('assertion', boolterm(self.ev(s.test, env)))
            return
        super().stmt(s, env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, SRef) and t.attr == 'coeff':
                z = comp(v)
                self.no_quant()
                self.put(self.hr, z3.Store(self.hr.v, o.t, z.re))
                self.put(self.hi, z3.Store(self.hi.v, o.t, z.im))
                return
            if isinstance(o, SumObj) and t.attr == 'pauli_sum':
                if isinstance(v, HList):
                    v.frozen = True
                l = self.tolist(v)
                if l.elt != 'ref':
                    raise Unsupported('list of a sum')
                self.put(o, l.v)
                return
            raise Unsupported('attribute assignment')
        if isinstance(t, ast.Name) and isinstance(v, Coll) and (v.ordered or v.src is not None):
            l = self.tolist(v)
            v = HList(l.v, l.elt)
        super().assign(t, v, env)

    def arbitrary(self, v, n, s):
        if isinstance(v, SC):
            return SC(fresh(R_, n), fresh(R_, n))
        if isinstance(v, SRef):
            return SRef(fresh(I_, n))
        return super().arbitrary(v, n, s)

    def havoc(self, o):
        super().havoc(o)
        if isinstance(o, (HList, SumObj)):
            self.assume(ln(o.v) >= 0)

    def loop_types(self, spec, env):
        for n, ty in spec.types.items():
            if n not in env:
                raise Unsupported(f'loop invariant mentions {n}')
            if ty == 'complex':
                env[n] = comp(env[n])
            elif isinstance(env[n], HList) and env[n].elt in (None, ty):
                env[n].elt = ty
            else:
                raise Unsupported(f'{n} is not a list')

    def writes_root(self, t):
        return not (isinstance(t, ast.Attribute) and t.attr == 'coeff')       # written to the heap

    def effects(self, s, env):
        out = super().effects(s, env)
        writes, makes = False, False
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == 'coeff':
                    writes = True
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and not any(isinstance(x, ast.Constant) or isinstance(x, ast.Attribute) and x.attr == 'coeff' for x in (n.left, n.right)):
                    makes = True        # possibly a product of monomials
                if isinstance(n, ast.Call):
                    nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
                    c = self.contracts.get('__init__' if nm == self.SUMC else nm)
                    writes = writes or (c is not None and '@re' in c.modifies)
                    makes = makes or nm == 'copy' or (c is not None and '@alloc' in c.modifies)
        if writes or makes:
            out = out + [g for k, g in self.globals.items() if not any(g is x for x in out) and (makes or k != '@alloc')]
        return out

    # ------------------------------------------------------------- expressions
    def e_List(self, e, env):
        l = HList(mk(fresh(IA, 'empty'), z3.IntVal(0)))
        for x in e.elts:
            self.method(l, 'append', [self.ev(x, env)])
        return l

    def e_UnaryOp(self, e, env):
        if isinstance(e.op, ast.Invert):
            v = self.ev(e.operand, env)
            if isinstance(v, NpBool):
                return NpBool(z3.Not(v.t))
            raise Unsupported('~')
        if isinstance(e.op, ast.USub):
            v = self.ev(e.operand, env)
            if isinstance(v, SC):
                return SC(-v.re, -v.im)
            if isinstance(v, (float, complex)):
                return -v
            return -v if isinstance(v, int) else SInt(-toint(v))
        return super().e_UnaryOp(e, env)

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(o, SRef) and e.attr == 'coeff':
            return SC(self.hr.v[o.t], self.hi.v[o.t])
        if isinstance(o, SumObj) and e.attr == 'pauli_sum':
            return LV(o.v, 'ref')
        return Bound(o, e.attr)

    def binop(self, op, a, b):
        if isinstance(a, SRef) and isinstance(b, SRef):
            if not isinstance(op, ast.Mult):
                raise Unsupported('operation of monomials')
            # PauliMonomial.__mul__ (C17)
            self.used.add('PauliMonomial.__mul__')
            z = [self.hr.v[a.t], self.hi.v[a.t], self.hr.v[b.t], self.hi.v[b.t]]
            return self.new_ref(WMUL(W(a.t), W(b.t)), *[f(W(a.t), W(b.t), *z) for f in PC])
        if isinstance(a, SumObj) and isinstance(b, SumObj):
            f = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__'}.get(type(op))
            if f not in self.defs or self.quant:
                raise Unsupported('operation of sums')
            self.concats.append((a.v, b.v, (self.hr.v, self.hi.v)))
            return self.call_fn(f, [a, b])
        lists = (LV, HList, Coll)
        if isinstance(a, lists) and isinstance(b, lists):
            if not isinstance(op, ast.Add):
                raise Unsupported('operation of lists')
            a, b = self.tolist(a), self.tolist(b)
            if a.elt != b.elt:
                raise Unsupported('lists of different kinds')
            l, x, h = fresh(Lst, 'cat'), fresh(I_, 'x'), fresh(RA, 'h')
            n1, n2 = ln(a.v), ln(b.v)
            self.assume(ln(l) == n1 + n2, z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n1 + n2), arr(l)[x] == z3.If(x < n1, arr(a.v)[x], arr(b.v)[x - n1])), patterns=[arr(l)[x]]),
                        z3.ForAll([h], SUM(ARR(arr(l), h), n1 + n2) == SUM(ARR(arr(a.v), h), n1) + SUM(ARR(arr(b.v), h), n2), patterns=[ARR(arr(l), h)]))
            self.concats.append((a.v, b.v, (self.hr.v, self.hi.v)))
            return HList(l, a.elt)
        num = (SC, float, complex)
        if isinstance(a, num) or isinstance(b, num):
            x, y = comp(a), comp(b)
            if isinstance(op, ast.Add):
                return SC(x.re + y.re, x.im + y.im)
            if isinstance(op, ast.Sub):
                return SC(x.re - y.re, x.im - y.im)
            if isinstance(op, ast.Mult):
                return SC(*cmul((x.re, x.im), (y.re, y.im)))
            raise Unsupported('operator')
        return super().binop(op, a, b)

    def equal(self, a, b):
        if isinstance(a, SRef) and isinstance(b, SRef):
            self.side('== of monomials of equal length', SITES(W(a.t)) == SITES(W(b.t)))
            return SBool(equal_refs(self.hi.v, a.t, b.t))
        num = (SC, float, complex)
        if isinstance(a, num) or isinstance(b, num):
            x, y = comp(a), comp(b)
            return SBool(z3.And(x.re == y.re, x.im == y.im))
        if isinstance(a, (SRef, LV, HList, SumObj)) or isinstance(b, (SRef, LV, HList, SumObj)):
            raise Unsupported('comparison')
        return super().equal(a, b)

    def e_Compare(self, e, env):
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            a, b = self.ev(e.left, env), self.ev(e.comparators[0], env)
            if isinstance(a, SRef) and isinstance(b, SRef):
                t = a.t == b.t
                return SBool(t if isinstance(e.ops[0], ast.Is) else z3.Not(t))
            if isinstance(a, Heap) and isinstance(b, Heap):
                return (a is b) == isinstance(e.ops[0], ast.Is)
            raise Unsupported('is')
        return super().e_Compare(e, env)

    def contains(self, x, c):
        if isinstance(c, (LV, HList)):
            c = self.as_coll(c)
        if isinstance(c, Coll) and c.ordered:
            q = fresh(I_, 'q')
            e = c.elem(q)
            if isinstance(e, SInt) and isinstance(x, (int, SInt)):
                if getattr(c, 'view', None):
                    l, lo = c.view
                    return SBool(z3.Exists([q], z3.And(lo <= q, q < ln(l), arr(l)[q] == toint(x))))
                return SBool(z3.Exists([q], z3.And(c.dom(q), e.t == toint(x))))
            if isinstance(e, SRef) and isinstance(x, SRef):
                self.all_equal_sites(c, x)
                return SBool(z3.Exists([q], z3.And(c.dom(q), z3.Or(e.t == x.t, equal_refs(self.hi.v, e.t, x.t)))))
            raise Unsupported('in')
        if isinstance(c, RSet):
            raise Unsupported('in')
        return super().contains(x, c)

    def all_equal_sites(self, c, x):
        q = fresh(I_, 'q')
        self.side('== of monomials of equal length', z3.ForAll([q], z3.Implies(c.dom(q), SITES(W(c.elem(q).t)) == SITES(W(x.t)))))

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(o, Coll) and o.ordered:
            o = self.tolist(o)
        if isinstance(o, (LV, HList)):
            l = o.v
            if isinstance(e.slice, ast.Slice):
                sl = e.slice
                lo = self.ev(sl.lower, env) if sl.lower else 0
                if sl.upper or sl.step or isinstance(lo, bool) or not isinstance(lo, int) or lo < 0:
                    raise Unsupported('slice')
                n = z3.If(ln(l) > lo, ln(l) - lo, 0)
                c = Coll([I_], lambda x: z3.And(0 <= x, x < n), lambda x: self.elem(o.elt, arr(l)[x + lo]), n)
                c.ordered = True
                c.view = (l, lo)
                return c
            ix = self.ev(e.slice, env)
            if isinstance(ix, int) and ix < 0:
                t = ln(l) + ix
            else:
                t = toint(ix)
            if l.get_id() in self.keeps and not self.quant:
                _, K, _, dom, _ = self.keeps[l.get_id()]
                self.assume(K[t] == dom(t))      # a term to match
            self.side('list index in range', z3.And(0 <= t, t < ln(l)))
            return self.elem(o.elt, arr(l)[t])
        return super().e_Subscript(e, env)

    def method(self, o, name, args):
        if isinstance(o, Lib) and o.name == 'copy' and name in ('copy', 'deepcopy'):
            v, = args
            if isinstance(v, (LV, HList)) and name == 'copy':
                return LV(v.v, v.elt)
            if isinstance(v, SRef):
                if self.quant:
                    return SCopy(v.t)
                return self.new_ref(W(v.t), self.hr.v[v.t], self.hi.v[v.t])
            raise Unsupported('copy')
        if isinstance(o, Lib) and name == 'isclose':
            x, y = comp(args[0]), comp(args[1])
            # exact arithmetic: the tolerance is taken as zero
            return NpBool(z3.And(x.re == y.re, x.im == y.im))
        if isinstance(o, Lib):
            raise Unsupported(f'{o.name}.{name}')
        if isinstance(o, SumObj):
            if name not in self.defs or self.quant:
                raise Unsupported(f'method {name}')
            return self.call_fn(name, ([] if self.defs[name].decorator_list else [o]) + args)       # (only staticmethod is admitted)
        if isinstance(o, (LV, HList)) and name == 'count':
            c, x = self.as_coll(o), args[0]
            if o.elt != 'ref' or not isinstance(x, SRef):
                raise Unsupported('count')
            self.all_equal_sites(c, x)
            return self.counted(o.v, x)
        if isinstance(o, HList) and name == 'append':
            self.no_quant()
            x, = args
            elt = 'ref' if isinstance(x, SRef) else 'int' if isinstance(x, (int, SInt)) and not isinstance(x, bool) else None
            if elt is None or o.elt not in (None, elt):
                raise Unsupported('append')
            o.elt = elt
            t = x.t if isinstance(x, (SRef, SInt)) else z3.IntVal(x)
            l, q = fresh(Lst, 'app'), fresh(I_, 'q')
            self.assume(ln(l) == ln(o.v) + 1, arr(l)[ln(o.v)] == t, z3.ForAll([q], z3.Implies(q != ln(o.v), arr(l)[q] == arr(o.v)[q]), patterns=[arr(l)[q], arr(o.v)[q]]))
            self.put(o, l)
            return None
        if isinstance(o, (LV, HList)) and name == 'copy' and not args:
            return HList(o.v, o.elt)
        if isinstance(o, (LV, HList, RSet, SRef)):
            raise Unsupported(f'method {name}')
        return super().method(o, name, args)

    def trigger(self, dom, e):
        """of a fact about every element e with dom: the count that dom is about (a trigger e would match its witnesses without end)"""
        todo = [dom]
        while todo:
            t = todo.pop()
            if z3.is_app(t):
                if any(t.decl().eq(f) for f in self.counts):
                    return t
                todo += t.children()
        return e

    def counted(self, l, x):
        """number of entries == x"""
        f = z3.Function(f'count{fresh(I_).decl().name()}', I_, I_)
        y, p, q = fresh(I_, 'y'), fresh(I_, 'p'), fresh(I_, 'q')
        s = EQS(arr(l), self.hi.v, y)
        r = lambda t: z3.And(0 <= t, t < ln(l))
        u = [z3.Function(f'w{c}{fresh(I_).decl().name()}', I_, I_) for c in 'pq']
        a, b = u[0](y), u[1](y)
        # two different positions (ordered) as witnesses of > 1
        self.assume(z3.ForAll([y], z3.And(f(y) >= 0, f(y) <= ln(l), z3.Implies(f(y) > 0, z3.And(r(a), s[a])), z3.Implies(f(y) > 1, z3.And(r(b), s[b], a < b))), patterns=[f(y)]),
                    z3.ForAll([y, p], z3.Implies(z3.And(r(p), s[p]), f(y) > 0), patterns=[z3.MultiPattern(f(y), s[p])]),
                    z3.ForAll([y, p, q], z3.Implies(z3.And(r(p), r(q), s[p], s[q], p < q), f(y) > 1), patterns=[z3.MultiPattern(f(y), s[p], s[q])]))
        self.counts.append(f)
        return SInt(f(x.t))

    # ------------------------------------------------------------- library
    def lib_len(self, c):
        if isinstance(c, (LV, HList)):
            return SInt(ln(c.v))
        if isinstance(c, RSet):
            return SInt(c.count)
        if isinstance(c, SumObj):
            return SInt(ln(c.v))
        if isinstance(c, SRef):
            return SInt(NSITES(SITES(W(c.t))))
        return super().lib_len(c)

    def lib_set(self, c=None):
        if c is None or isinstance(c, (Heap,)):
            raise Unsupported('set')
        if isinstance(c, LV):
            c = self.as_coll(c)
        x = self.bind(c)
        e = c.elem(*x)
        if not isinstance(e, SRef) or len(x) != 1:
            raise Unsupported('set')
        self.no_quant()
        # __hash__ agrees with __eq__: one element of every class
        D, rep, cnt = fresh(BA, 'D'), z3.Function(f'rep{fresh(I_).decl().name()}', I_, I_), fresh(I_, 'card')
        ix = z3.Function(f'from{fresh(I_).decl().name()}', I_, I_)
        y, z = fresh(I_, 'y'), fresh(I_, 'z')
        hm = self.hi.v
        q = ix(y)
        some = fresh(I_, 'some')
        self.assume(z3.ForAll([y], z3.Implies(D[y], z3.And(c.dom(q), c.elem(q).t == y, rep(y) == y)), patterns=[D[y]]),
                    z3.ForAll(x, z3.Implies(c.dom(*x), z3.And(D[rep(e.t)], equal_refs(hm, rep(e.t), e.t))), patterns=[self.trigger(c.dom(*x), e.t)]),
                    z3.ForAll([y, z], z3.Implies(z3.And(D[y], D[z], equal_refs(hm, y, z)), y == z), patterns=[z3.MultiPattern(D[y], D[z])]),
                    cnt >= 0, z3.Implies(cnt > 0, D[some]), z3.ForAll([y], z3.Implies(D[y], cnt > 0), patterns=[D[y]]))
        return RSet(D, cnt)

    def lib_enumerate(self, c):
        c = self.as_coll(c)
        if not c.ordered:
            raise Unsupported('enumerate')
        r = Coll([I_], c.dom, lambda x: (SInt(x), c.elem(x)), c.count)
        r.ordered = True
        r.over = getattr(c, 'lst', None)
        return r

    def lib_range(self, a, b=None):
        r = super().lib_range(a, b)
        if b is None and isinstance(a, (int, SInt)):
            r.count = z3.If(toint(a) > 0, toint(a), 0)
            r.ordered = True
        return r

    def lib_list(self, c):
        if isinstance(c, (LV, HList)):
            return HList(c.v, c.elt)
        return super().lib_list(c)

    def lib_isinstance(self, v, ts):
        names = [t.name for t in (ts if isinstance(ts, tuple) else (ts,)) if isinstance(t, Lib)]
        if isinstance(v, SRef):
            return self.ELEM in names
        if isinstance(v, (SC, int, float, complex)) and 'complex' in names and 'float' in names and 'int' in names:
            return True
        raise Unsupported('isinstance')

    def lib_PauliSum(self, lst):
        o = SumObj(fresh(Lst, 'sum'))
        self.no_quant()
        self.call_fn('__init__', [o, self.tolist(lst)])
        return o


NSITES = z3.Function('number_of_sites', I_, I_)
