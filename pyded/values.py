"""Run-time values of the symbolic interpreter."""
import itertools
from fractions import Fraction
from . import terms as T
from . import solve as S
from .terms import Poly, B, Atom, Unsupported


class Undef:
    key = 'undef'

    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Poison:
    """an unmergeable value: reading it is outside the subset"""

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return f'POISON({self.why})'


_birth = itertools.count(1)


class Obj:
    """mutable heap object; all state in slots `s`, changed only through Interp.set"""

    def __init__(self):
        self.s = {}
        self.birth = next(_birth)
        self.frozen = False


class Env(Obj):
    def __init__(self, parent=None, module=None, name='?'):
        super().__init__()
        self.parent, self.module, self.name = parent, module, name
        self.nonlocals = set()
        self.cls = None
        self.self_ = None


class Seg1:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def n(self):
        return T.ONE


class SegMap:
    """n elements, the i-th is fn(i); fn is total and pure"""
    __slots__ = ('cnt', 'fn', 'inj')

    def __init__(self, cnt, fn, inj=False):
        self.cnt, self.fn, self.inj = cnt, fn, inj

    def n(self):
        return self.cnt


class SegStore(SegMap):
    """a family with one element replaced"""
    __slots__ = ('base', 'rel', 'val')

    def __init__(self, cnt, fn, base, rel, val):
        super().__init__(cnt, fn)
        self.base, self.rel, self.val = base, rel, val


class SegPre:
    """placeholder: the unknown prefix of a list at the start of a generic loop iteration"""
    __slots__ = ('cnt', 'ident', 'read')

    def __init__(self, cnt, ident, read):
        self.cnt, self.ident, self.read = cnt, ident, read

    def n(self):
        return self.cnt


class PyList(Obj):
    def __init__(self, segs=()):
        super().__init__()
        self.s['segs'] = tuple(segs)

    @property
    def segs(self):
        return self.s['segs']


class Vec(PyList):
    """1-d numpy array (or numpy array of objects) given elementwise"""


class SymSeq:
    """immutable sequence of symbolic length (tuple-like)"""

    def __init__(self, segs, kind='tuple'):
        self.segs = tuple(segs)
        self.kind = kind

    def __repr__(self):
        return f'SymSeq({len(self.segs)} segs)'


class PyDict(Obj):
    """entries: tuple of DEnt"""

    def __init__(self, ents=()):
        super().__init__()
        self.s['ents'] = tuple(ents)

    @property
    def ents(self):
        return self.s['ents']


class DEnt:
    """one entry (cnt None) or a family key(i) -> val(i), i < cnt; the families of one group `grp`
    are interleaved: entry i of each, in their order, for i = 0, 1, .."""
    __slots__ = ('cnt', 'k', 'v', 'gk', 'grp')

    def __init__(self, cnt, k, v, grp=None):
        self.cnt, self.k, self.v, self.grp = cnt, k, v, grp
        self.gk = None

    def excludes(self, key):
        """no key of the family can equal `key`: tuples that differ in length or in a literal string"""
        if not isinstance(key, tuple):
            return False
        if self.gk is None:
            self.gk = self.k if self.cnt is None else self.k(T.newvar('q')[1])
        return isinstance(self.gk, tuple) and (len(self.gk) != len(key) or any(isinstance(a, str) and isinstance(b, str) and a != b for a, b in zip(self.gk, key)))


class DPre:
    __slots__ = ('ident', 'cnt', 'ph')

    def __init__(self, ident, cnt, ph=None):
        self.ident, self.cnt, self.ph = ident, cnt, ph


class PySet(Obj):
    def __init__(self, items=(), sym=None):
        super().__init__()
        self.s['items'] = tuple(items)
        self.sym = sym


class GPart:
    """element of a set that is there under a condition"""
    __slots__ = ('cond', 'v')

    def __init__(self, cond, v):
        self.cond, self.v = cond, v


class GFam:
    """the elements v(i), i < cnt, with cond(i)"""
    __slots__ = ('cnt', 'cond', 'v')

    def __init__(self, cnt, cond, v):
        self.cnt, self.cond, self.v = cnt, cond, v


class GPre:
    """the elements of a set at the start of iteration j of a loop"""
    __slots__ = ('ph', 'j')

    def __init__(self, ph, j):
        self.ph, self.j = ph, j


def guarded(st):
    return any(isinstance(x, (GPart, GFam, GPre)) for x in st.s['items'])


def plain(st):
    if guarded(st):
        raise Unsupported('set with conditional elements')
    return st.s['items']


def merge_items(c, xs, ys):
    k = 0
    while k < len(xs) and k < len(ys) and (xs[k] is ys[k] or (not isinstance(xs[k], (GPart, GFam, GPre)) and veq_quick(xs[k], ys[k]))):
        k += 1
    out = list(xs[:k])
    for c, rest in ((c, xs[k:]), (T.bnot(c), ys[k:])):
        for x in rest:
            if isinstance(x, (GFam, GPre)):
                raise MergeFail('sets')
            out.append(GPart(T.band(c, x.cond), x.v) if isinstance(x, GPart) else GPart(c, x))
    return tuple(out)


class Arr(Obj):
    """numpy array"""

    def __init__(self, val):
        super().__init__()
        self.s['val'] = val

    @property
    def val(self):
        return self.s['val']

    def __repr__(self):
        return f'Arr({self.val!r})'


class Inst(Obj):
    def __init__(self, cls):
        super().__init__()
        self.cls = cls

    def __repr__(self):
        return f'<{self.cls.name}>'


class ClassV:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, n):
        for c in self.mro():
            if n in c.ns:
                return c, c.ns[n]
        return None, None

    def __repr__(self):
        return f'<class {self.name}>'


class FuncV:
    def __init__(self, name, node, env, module, cls=None, defaults=(), kwdefaults=()):
        self.name, self.node, self.env, self.module, self.cls = name, node, env, module, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults

    @property
    def qual(self):
        return f'{self.module}.{self.cls.name + "." if self.cls else ""}{self.name}'

    def __repr__(self):
        return f'<function {self.qual}>'


class BoundV:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f'<builtin {self.name}>'


class ModuleV:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns

    def __repr__(self):
        return f'<module {self.name}>'


class ExcV:
    """exception class or instance"""

    def __init__(self, name):
        self.name = name


class SymObj:
    """external object described by its contract: attrs maps names to values or zero-arg thunks"""

    def __init__(self, kind, attrs=None, call=None, key=None, rebuild=None, isinst=(), fv=frozenset()):
        self.kind, self.attrs, self.call, self.ident = kind, attrs or {}, call, key
        self.fv = fv
        self.rebuild = rebuild     # fn(subst map) -> SymObj
        self.isinst = isinst

    def __repr__(self):
        return f'<{self.kind} {self.ident}>'


class OpaqueStr:
    """string built from symbolic parts"""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return f'OpaqueStr{self.parts}'


class JoinStr(OpaqueStr):
    """sep.join of a family of strings"""

    def __init__(self, sep, seg):
        self.sep, self.seg = sep, seg
        self.parts = (sep,)


_STRCODE = {}
_CODESTR = []


def str_code(s):
    if s not in _STRCODE:
        _STRCODE[s] = len(_CODESTR)
        _CODESTR.append(s)
    return T.const(_STRCODE[s])


class SymStr(OpaqueStr):
    """one of several known strings, selected by conditions; `code` is the number of the string in an intern table"""

    def __init__(self, code, dom=None):
        self.code = Poly(code.terms, (), 'int')
        self.parts = ()
        self.dom = dom       # the strings it can be, if known

    def __repr__(self):
        return f'SymStr({T.pretty(self.code)})'


def strcode(v):
    if isinstance(v, str):
        return str_code(v)
    if isinstance(v, SymStr):
        return v.code
    return None


class IterV(Obj):
    """stateful iterator over a sequence (it.cycle, iter, ...)"""

    def __init__(self, seq, cyc):
        super().__init__()
        self.seq, self.cyc = seq, cyc
        self.s['pos'] = T.ZERO


# ------------------------------------------------------------------ numbers
def is_num(v):
    return isinstance(v, (int, Poly)) or isinstance(v, B)


def to_poly(v):
    if isinstance(v, bool):
        return T.const(int(v), 'bool')
    if isinstance(v, int):
        return T.const(v)
    if isinstance(v, Poly):
        return v
    if isinstance(v, Arr):
        return v.val
    if isinstance(v, B):
        r = T.ite(v, T.ONE, T.ZERO)
        r = Poly(r.terms, (), 'bool')
        return r
    if isinstance(v, float):
        return T.const(v)
    if isinstance(v, complex):
        return T.const(v)
    raise Unsupported(f'not a number: {v!r}')


def num(p):
    """canonical scalar value of a Poly"""
    if isinstance(p, Poly) and p.shape == ():
        if p.pt in ('int', None, 'bool'):
            i = p.int_value()
            if i is not None and p.pt in ('int', 'bool'):
                return i
        return p
    return p


def wrap(p):
    """Poly -> value"""
    if p.shape == ():
        return num(p)
    return Arr(p)


# ------------------------------------------------------------------ substitution in values
def vfv(v, depth=0):
    """does the value mention free variables? returns frozenset (best effort, lazily sampled)"""
    if isinstance(v, (Poly, B)):
        return v.fv
    if isinstance(v, Arr):
        return v.val.fv
    if isinstance(v, tuple):
        r = frozenset()
        for x in v:
            r |= vfv(x)
        return r
    return frozenset()


def vsubst(v, m, memo=None):
    """substitute free variables in a value, copying objects that mention them"""
    if memo is None:
        memo = {}
    if isinstance(v, (Poly, B)):
        r = v.subst(m)
        return num(r) if isinstance(r, Poly) and isinstance(v, Poly) and v.shape == () else r
    if isinstance(v, tuple):
        return tuple(vsubst(x, m, memo) for x in v)
    if isinstance(v, Arr):
        if not (v.val.fv & m.keys()):
            return v
        k = id(v)
        if k not in memo:
            memo[k] = Arr(v.val.subst(m))
            memo[k].frozen = v.frozen
        return memo[k]
    if isinstance(v, SymSeq):
        return SymSeq([ssubst(s, m, memo) for s in v.segs], v.kind)
    if isinstance(v, PyList):
        k = id(v)
        if k not in memo:
            segs = [ssubst(s, m, memo) for s in v.segs]
            if all(a is b for a, b in zip(segs, v.segs)):
                memo[k] = v
            else:
                memo[k] = type(v)(segs)
                memo[k].frozen = True
        return memo[k]
    if isinstance(v, PyDict):
        k = id(v)
        if k not in memo:
            ents = []
            same = True
            for e in v.ents:
                if isinstance(e, DPre):
                    raise Unsupported('substitution in a dict prefix')
                if e.cnt is None:
                    ne = DEnt(None, vsubst(e.k, m, memo), vsubst(e.v, m, memo))
                    same = same and ne.k is e.k and ne.v is e.v
                else:
                    kk, vv = e.k, e.v
                    ne = DEnt(e.cnt.subst(m), (lambda i, kk=kk: vsubst(kk(i), m)), (lambda i, vv=vv: vsubst(vv(i), m)), e.grp)
                    same = False
                ents.append(ne)
            if same:
                memo[k] = v
            else:
                memo[k] = PyDict(ents)
                memo[k].frozen = True
        return memo[k]
    if isinstance(v, Inst):
        k = id(v)
        if k not in memo:
            memo[k] = v
            s = {a: vsubst(x, m, memo) for a, x in v.s.items()}
            if any(s[a] is not v.s[a] for a in s):
                n = Inst(v.cls)
                n.s = s
                n.frozen = True
                memo[k] = n
        return memo[k]
    if isinstance(v, SymObj):
        if v.rebuild and (v.fv & m.keys()):
            return v.rebuild(m)
        return v
    if isinstance(v, SymStr):
        return SymStr(v.code.subst(m), v.dom) if v.code.fv & m.keys() else v
    if isinstance(v, JoinStr):
        return JoinStr(v.sep, ssubst(v.seg, m, memo))
    if isinstance(v, OpaqueStr):
        return OpaqueStr([vsubst(x, m, memo) for x in v.parts])
    return v


def ssubst(s, m, memo=None):
    if isinstance(s, Seg1):
        n = vsubst(s.v, m, memo)
        return s if n is s.v else Seg1(n)
    if isinstance(s, SegMap):
        fn = s.fn
        # instantiate once to see whether it mentions the variables
        nm, x = T.newvar('t')
        probe = fn(x)
        if not mentions(probe, m.keys()) and not (s.cnt.fv & m.keys()):
            return s
        return SegMap(s.cnt.subst(m), lambda i, fn=fn, m=m: vsubst(fn(i), m), s.inj)
    if isinstance(s, SegPre):
        raise Unsupported('substitution in a list prefix')
    raise Unsupported('segment')


def mentions(v, names, seen=None):
    if seen is None:
        seen = set()
    if isinstance(v, (Poly, B)):
        return bool(v.fv & names)
    if isinstance(v, Arr):
        return bool(v.val.fv & names)
    if isinstance(v, tuple):
        return any(mentions(x, names, seen) for x in v)
    if isinstance(v, (SymSeq, PyList)):
        if id(v) in seen:
            return False
        seen.add(id(v))
        for s in v.segs:
            if isinstance(s, Seg1):
                if mentions(s.v, names, seen):
                    return True
            elif isinstance(s, SegMap):
                if s.cnt.fv & names:
                    return True
                nm, x = T.newvar('t')
                if mentions(s.fn(x), names, seen):
                    return True
        return False
    if isinstance(v, PyDict):
        for e in v.ents:
            if isinstance(e, DPre):
                continue
            if e.cnt is None:
                if mentions(e.k, names, seen) or mentions(e.v, names, seen):
                    return True
            else:
                if e.cnt.fv & names:
                    return True
                nm, x = T.newvar('t')
                if mentions(e.k(x), names, seen) or mentions(e.v(x), names, seen):
                    return True
        return False
    if isinstance(v, Inst):
        if id(v) in seen:
            return False
        seen.add(id(v))
        return any(mentions(x, names, seen) for x in v.s.values())
    if isinstance(v, SymObj):
        return bool(v.fv & names)
    if isinstance(v, SymStr):
        return bool(v.code.fv & names)
    if isinstance(v, JoinStr):
        nm, x = T.newvar('t')
        return bool(v.seg.cnt.fv & names) or mentions(v.seg.fn(x), names, seen)
    if isinstance(v, OpaqueStr):
        return any(mentions(x, names, seen) for x in v.parts)
    return False


def seqlen(segs):
    n = T.ZERO
    for s in segs:
        n = T.add_raw(n, s.n())
    n = Poly(n.terms, (), 'int')
    return n


def elementwise(segs):
    """all segments are single elements"""
    return all(isinstance(s, Seg1) for s in segs)


# ------------------------------------------------------------------ merging under a condition
class MergeFail(Exception):
    pass


def guard_seg(c, s):
    if isinstance(s, Seg1):
        v = s.v
        return SegMap(to_int(T.ite(c, T.ONE, T.ZERO)), lambda i, v=v: v)
    if isinstance(s, SegMap):
        return SegMap(to_int(T.ite(c, s.cnt, T.ZERO)), s.fn, s.inj)
    raise MergeFail('prefix')


def to_int(p):
    return Poly(p.terms, (), 'int')


def vmerge(c, a, b):
    if a is b:
        return a
    if isinstance(a, Poison) or isinstance(b, Poison):
        return a if isinstance(a, Poison) else b
    if a is UNDEF or b is UNDEF:
        return Poison('defined on one branch only')
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        x, y = to_b(a), to_b(b)
        if x.key == y.key:
            return a
        r = T.bor(T.band(c, x), T.band(T.bnot(c), y))
        return from_b(r)
    if is_num(a) and is_num(b):
        x, y = to_poly(a), to_poly(b)
        if x.key == y.key and x.pt == y.pt:
            return a
        r = T.ite(c, x, y)
        pt = T.join_pt(x.pt, y.pt) if (x.pt and y.pt and x.pt != 'bool' and y.pt != 'bool') else (x.pt or y.pt)
        return num(Poly(r.terms, (), x.pt if x.pt == y.pt else pt))
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.val.key == b.val.key and a.frozen and b.frozen:
            return a
        x, y = a.val, b.val
        if x.shape is not None and y.shape is not None and not T.dims_eq(x.shape, y.shape):
            raise MergeFail('array shapes')
        r = Arr(T.ite(c, x, y))
        r.frozen = True
        return r
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vmerge(c, x, y) for x, y in zip(a, b))
    if type(a) is type(b) and isinstance(a, PyList):
        r = type(a)(merge_segs(c, a.segs, b.segs))
        r.frozen = True
        return r
    if isinstance(a, (SymSeq, tuple)) and isinstance(b, (SymSeq, tuple)):
        return SymSeq(merge_segs(c, segs_of(a), segs_of(b)))
    if type(a) is PySet and type(b) is PySet and a.sym is None and b.sym is None:
        r = PySet(merge_items(c, a.s['items'], b.s['items']))
        r.frozen = True
        return r
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        if isinstance(a, str) and a == b:
            return a
        return SymStr(T.ite(c, strcode(a), strcode(b)))
    if veq_quick(a, b):
        return a
    raise MergeFail(f'{type(a).__name__}/{type(b).__name__}')


def segs_of(a):
    if isinstance(a, tuple):
        return tuple(Seg1(x) for x in a)
    return a.segs


def merge_segs(c, xs, ys):
    out = []
    i = 0
    while i < len(xs) and i < len(ys):
        x, y = xs[i], ys[i]
        if x is y:
            out.append(x)
        elif isinstance(x, Seg1) and isinstance(y, Seg1):
            if x.v is y.v:
                out.append(x)
            else:
                try:
                    out.append(Seg1(vmerge(c, x.v, y.v)))
                except MergeFail:
                    break
        elif isinstance(x, SegMap) and isinstance(y, SegMap) and x.fn is y.fn and x.cnt.key == y.cnt.key:
            out.append(x)
        elif isinstance(x, SegPre) and isinstance(y, SegPre) and x.ident == y.ident:
            out.append(x)
        else:
            break
        i += 1
    for x in xs[i:]:
        out.append(guard_seg(c, x))
    for y in ys[i:]:
        out.append(guard_seg(T.bnot(c), y))
    return tuple(out)


def veq_quick(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, str) or a is None:
        return a == b
    if isinstance(a, (Poly, B)):
        return a.key == b.key
    if isinstance(a, FuncV):
        return a.node is b.node and a.env is b.env
    if isinstance(a, BoundV):
        return a.self_ is b.self_ and veq_quick(a.fn, b.fn)
    if isinstance(a, SymObj):
        return a.ident is not None and a.kind == b.kind and _k(a.ident) == _k(b.ident)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(veq_quick(x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, int)):
        return a == b
    if isinstance(a, SymStr):
        return a.code.key == b.code.key
    if isinstance(a, JoinStr):
        nm, i = T.newvar('i')
        return a.sep == b.sep and a.seg.cnt.key == b.seg.cnt.key and veq_quick(a.seg.fn(i), b.seg.fn(i))
    return False


def _k(x):
    try:
        return T.t_key(x)
    except Unsupported:
        return id(x)


def to_b(v):
    if isinstance(v, bool):
        return T.TRUE if v else T.FALSE
    return v


def from_b(b):
    if b.kind == 'true':
        return True
    if b.kind == 'false':
        return False
    return b
