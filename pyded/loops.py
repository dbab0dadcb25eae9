"""Loops over sequences of symbolic length: one generic iteration is executed from a state of
placeholders, and the recurrences it defines are solved (sums, maps, last values) or become a
recursively defined function (`sys` atoms).  No bound, no unrolling of symbolic loops."""
import ast
import re as _re
from . import terms as T
from . import solve as S
from .terms import Poly, B, Unsupported
from .values import *
from . import values as V
from .interp import (BreakSig, ContinueSig, ReturnSig, RaiseSig, Loc, Outcome, PathDead)

T.BINDERS |= {'sysdef', 'stop'}


class SegFlat:
    """concatenation over i < cnt of segsfn(i)"""
    __slots__ = ('cnt', 'segsfn')

    def __init__(self, cnt, segsfn):
        self.cnt, self.segsfn = cnt, segsfn

    def n(self):
        nm, i = T.newvar('f')
        tot = T.ZERO
        for s in self.segsfn(i):
            tot = T.add_raw(tot, s.n())
        return to_int(T.bigsum(self.cnt, nm, tot))


_old_ssubst = V.ssubst


def _ssubst(s, m, memo=None):
    if isinstance(s, SegFlat):
        f = s.segsfn
        return SegFlat(s.cnt.subst(m), lambda i: [V.ssubst(x, m) for x in f(i)])
    return _old_ssubst(s, m, memo)


V.ssubst = _ssubst
_old_guard = V.guard_seg


def _guard(c, s):
    if isinstance(s, SegFlat):
        return SegFlat(to_int(T.ite(c, s.cnt, T.ZERO)), s.segsfn)
    return _old_guard(c, s)


V.guard_seg = _guard


# ------------------------------------------------------------------ entry points
def exec_for(I, st, env):
    itv = I.eval(st.iter, env)
    segs = I.lib.segs(itv)

    def body(v):
        I.assign(st.target, v, env)
        I.block(st.body, env)
    broke = for_loop(I, segs, body)
    if st.orelse:
        if broke is False:
            I.block(st.orelse, env)
        elif broke is True:
            pass
        else:
            raise Unsupported('for/else with symbolic break')


def special_index(I, conds, seen, cnt):
    """p with 0 <= p < cnt, independent of the iteration, such that the body asked whether j == p"""
    names = {}
    for j in seen:
        if len(j.fv) == 1:
            names[next(iter(j.fv))] = j
    for c in conds:
        for e in (c.args if c.kind == 'and' else [c.args[0]] if c.kind == 'not' else [c]):
            for nm in names:
                p = index_from(e, nm)
                if p is not None and not (p.fv & set(names)) and I.prove(T.band(T.ge0(p), T.lt(p, cnt))):
                    return p
    return None


def index_from(e, nm):
    """solve an equation for the loop variable nm"""
    if e.kind == 'and':
        for x in e.args:
            p = index_from(x, nm)
            if p is not None:
                return p
        return None
    if e.kind != 'eq0' or nm not in e.args[0].fv:
        return None
    q = e.args[0]
    key = next(iter(T.var(nm).terms))
    c = q.terms.get(key)
    if c is not None and c.im == 0 and abs(c.re) == 1:
        r = T.sub(q, T.scale(T.const(c), T.var(nm)))
        return None if nm in r.fv else to_int(T.scale(T.const(-c.re), r))
    if len(q.terms) == 2:
        at = []
        for (sc, ms), c in q.terms.items():
            if ms or len(sc) != 1 or sc[0][1] != 1 or sc[0][0].kind != 'app' or not str(sc[0][0].args[0]).startswith('comb'):
                return None
            at.append(sc[0][0])
        for a, b in (at, at[::-1]):
            if a.args[0] == b.args[0] and nm in a.args[2].fv and a.args[2].key == T.var(nm).key and nm not in b.args[2].fv and b.args[1].key == a.args[1].key:
                return to_int(b.args[2])
    return None


def for_loop(I, segs, body, split=2):
    """returns False (never broke), True (broke) or None (unknown)"""
    segs = list(segs)
    for k, s in enumerate(segs):
        if isinstance(s, Seg1):
            try:
                body(s.v)
            except ContinueSig:
                pass
            except BreakSig:
                return True
        elif isinstance(s, SegMap):
            s = unguarded(I, s)
            iv = s.cnt.int_value()
            if iv is not None and iv <= 24:
                for t in range(iv):
                    try:
                        body(s.fn(T.const(t)))
                    except ContinueSig:
                        pass
                    except BreakSig:
                        return True
                continue
            seen, mark = [], len(I.forked)

            def run(j, s=s):
                seen.append(j)
                return body(s.fn(j))
            try:
                broke = summarise(I, s.cnt, run)
            except Unsupported:
                # one iteration is special (`if j == p`): treat it between two loops
                p = special_index(I, I.forked[mark:], seen, s.cnt) if split else None
                if p is None:
                    raise
                parts = [SegMap(p, s.fn), Seg1(s.fn(p)), SegMap(to_int(T.sub(T.sub(s.cnt, p), T.ONE)), lambda i, s=s, p=p: s.fn(to_int(T.add(T.add(p, T.ONE), i))))]
                broke = for_loop(I, parts, body, split - 1)
                if broke is not False:
                    raise Unsupported('break out of a split loop')
            if broke:
                if k == len(segs) - 1:
                    return None
                raise Unsupported('break out of a segmented loop')
        elif isinstance(s, SegFlat):
            def inner(j, s=s):
                if for_loop(I, s.segsfn(j), body) is not False:
                    raise Unsupported('break out of a nested segment')
            summarise(I, s.cnt, inner)
        else:
            raise Unsupported('iteration over a list that grows in the loop')
    return False


def unguarded(I, s):
    """a part of a list that is there under a condition: two cases"""
    while len(s.cnt.terms) == 1:
        ((sc, ms), c), = s.cnt.terms.items()
        if ms or len(sc) != 1 or sc[0][1] != 1 or sc[0][0].kind != 'ite' or c != T.C1:
            break
        a = sc[0][0]
        if not a.args[2].is_zero():
            break
        s = SegMap(to_int(a.args[1]) if I.decide(a.args[0]) else T.ZERO, s.fn, s.inj)
    return s


def exec_while(I, st, env):
    if st.orelse:
        raise Unsupported('while/else')
    for _ in range(200):
        c = I.truth(I.eval(st.test, env))
        if not isinstance(c, bool):
            if I.prove(c):
                c = True
            elif I.prove(T.bnot(c)):
                c = False
            else:
                break
        if not c:
            return
        try:
            I.block(st.body, env)
        except ContinueSig:
            pass
        except BreakSig:
            return
    else:
        raise Unsupported('long concrete while loop')
    # symbolic: find the trip count from the closed form of the condition
    holder = {}

    def run(j):
        c = I.truth(I.eval(st.test, env))
        holder['c'] = to_b(c)
        I.facts.append(to_b(c))
        I.block(st.body, env)
    nN, N = T.newvar('N')
    n = None

    def probe(sol, jn, j):
        c = sol_subst(holder['c'], sol, jn, j)
        return c
    c, jn = summarise(I, N, run, probe=probe)
    n = trip_count(I, c, jn)
    summarise(I, n, lambda j: I.block(st.body, env))


def trip_count(I, c, jn):
    if c.kind != 'ge0' or not c.args[0].is_int():
        raise Unsupported('while condition')
    p = c.args[0]
    a, b = {}, None
    for (sc, ms), co in p.terms.items():
        if len(sc) == 1 and sc[0][0].kind == 'var' and sc[0][0].args[0] == jn and sc[0][1] == 1:
            b = co.re
        elif any(jn in x.fv for x, _ in sc):
            raise Unsupported('while condition not linear')
        else:
            a[(sc, ms)] = co
    if b != -1:
        raise Unsupported('while condition not a simple count')
    n = T.add(Poly(a, (), 'int'), T.ONE)
    if I.prove(T.ge0(n)):
        return n
    return to_int(T.ite(T.ge0(n), n, T.ZERO))


def comp_segs(I, gens, elt, env):
    acc = PyList()
    cenv = Env(env, env.module, env.name)

    def go(k):
        if k == len(gens):
            v = I.eval(elt, cenv)
            I.set(acc, 'segs', acc.segs + (Seg1(v),))
            return
        g = gens[k]
        itv = I.eval(g.iter, cenv if k else env)

        def body(v):
            I.assign(g.target, v, cenv)
            conds(g.ifs, 0)

        def conds(ifs, t):
            if t == len(ifs):
                return go(k + 1)
            c = I.truth(I.eval(ifs[t], cenv))
            if not isinstance(c, bool):
                if I.prove(c):
                    c = True
                elif I.prove(T.bnot(c)):
                    c = False
            if isinstance(c, bool):
                if c:
                    conds(ifs, t + 1)
                return
            outs = I.explore(lambda: conds(ifs, t + 1), [c])
            for o in outs:
                o.conds = [c] + o.conds
            outs.append(Outcome([T.bnot(c)], 'normal', None, {}, ()))
            I.resolve(outs)
        for_loop(I, I.lib.segs(itv), body)
    go(0)
    return acc.segs


# ------------------------------------------------------------------ placeholders
class Comp:
    """one numeric recurrence component"""
    __slots__ = ('name', 'var', 'init', 'step', 'typ', 'shape', 'pt')


def typ_of(p):
    if p.shape == ():
        if p.is_int() and p.pt in ('int', 'bool', None):
            return 'int'
        try:
            if p.is_real():
                return 'real'
        except Unsupported:
            pass
    return 'complex'


_tl = {'int': 0, 'real': 1, 'complex': 2}


def join_typ(a, b):
    return a if _tl[a] >= _tl[b] else b


class Widen(Exception):
    pass


class Ph:
    """placeholder for one location; build(v0, v1) from the value before the loop and after one iteration"""

    def __init__(self, loc, v0):
        self.loc, self.v0 = loc, v0
        self.comps = []          # Comp objects in order
        self.kind = None


def mkcomp(init, other=None):
    c = Comp()
    p = init
    typ, shape, pt = typ_of(p), p.shape, p.pt
    if other is not None:
        q = other
        if q.shape != shape:
            if shape == () and p.is_zero():
                shape = q.shape
            elif q.shape is None or shape is None:
                shape = None
            elif shape != () and T.scalar_like(p) and T.scalar_like(q):
                pass
            elif shape != () and q.shape != () and T.dims_eq(shape, q.shape):
                pass
            elif shape == () or q.shape == ():
                shape = None
            else:
                shape = None
        typ = join_typ(typ, typ_of(q)) if shape == () else 'complex'
        pt = T.join_pt(pt, q.pt) if pt and q.pt else None
    c.typ, c.shape, c.pt = typ, shape, pt
    c.name, v = T.newvar('p', typ, shape)
    c.var = Poly(v.terms, shape, pt)
    c.init = p if p.shape == shape else Poly(p.terms, shape)
    c.step = None
    return c


def build_value(v0, v1, comps, path=()):
    """symbolic value shaped like v0 (with v1 as a hint) whose numeric leaves are new components"""
    if v0 is UNDEF or isinstance(v0, Poison):
        return Poison('not assigned before the loop')
    if isinstance(v0, (bool, B)) and isinstance(v1, (bool, B)):
        return Poison('boolean changed in a loop')
    if is_num(v0) and (v1 is None or is_num(v1) or isinstance(v1, Arr)):
        c = mkcomp(to_poly(v0), None if v1 is None else to_poly(v1))
        comps.append(c)
        return c.var if c.shape == () else Arr(c.var)
    if isinstance(v0, Arr) and (v1 is None or isinstance(v1, Arr)):
        c = mkcomp(v0.val, None if v1 is None else v1.val)
        comps.append(c)
        a = Arr(c.var)
        return a
    if isinstance(v0, tuple) and isinstance(v1, tuple) and len(v0) == len(v1):
        return tuple(build_value(a, b, comps) for a, b in zip(v0, v1))
    return Poison(f'loop-carried {type(v0).__name__}')


def read_comps(v, tmpl, out):
    """numeric leaves of v in the order build_value created them from tmpl"""
    if isinstance(tmpl, Poison):
        return
    if isinstance(tmpl, tuple):
        if not isinstance(v, tuple) or len(v) != len(tmpl):
            raise Unsupported('loop-carried tuple changes shape')
        for a, b in zip(v, tmpl):
            read_comps(a, b, out)
        return
    if not (is_num(v) or isinstance(v, Arr)):
        raise Unsupported('loop-carried value changes kind')
    out.append(to_poly(v))


class NumPh(Ph):
    def install(self, v1):
        self.comps = []
        if self.loc.slot == 'val' and isinstance(self.loc.obj, Arr):
            c = mkcomp(self.v0, v1)
            self.comps.append(c)
            self.tmpl = c.var
            self.raw = True
        else:
            self.tmpl = build_value(self.v0, v1, self.comps)
            self.raw = False

    def value(self, j):
        return self.tmpl

    def read(self, v):
        out = []
        if self.raw:
            return [v]
        read_comps(v, self.tmpl, out)
        return out


class ListPh(Ph):
    """append-only list (slot segs), or same-length list with changed elements"""
    _id = 0

    def install(self, v1):
        v0 = self.v0
        k = 0
        while k < len(v0) and k < len(v1) and v0[k] is v1[k]:
            k += 1
        self.comps = []
        if k == len(v0):
            self.mode = 'append'
            ListPh._id += 1
            self.ident = ListPh._id
            d = V.seqlen(v1[k:])
            self.delta = d
            self.elem_hint = v1[k:]
        else:
            if len(v0) != len(v1):
                raise Unsupported('list changed and resized in a loop')
            self.mode = 'elems'
            self.changed = [i for i in range(len(v0)) if v0[i] is not v1[i]]
            tm = list(v0)
            if len(self.changed) == 1 and isinstance(v1[self.changed[0]], V.SegStore):
                self.mode = 'scatter'
                i = self.changed[0]

                def unread(i):
                    raise Unsupported('read of a list that the loop overwrites')
                tm[i] = SegMap(v0[i].cnt, unread)
                self.tmpl = tuple(tm)
                return
            for i in self.changed:
                if not (isinstance(v0[i], Seg1) and isinstance(v1[i], Seg1)):
                    raise Unsupported('list family changed in a loop')
                cs = []
                tm[i] = Seg1(build_value(v0[i].v, v1[i].v, cs))
                if isinstance(tm[i].v, Poison):
                    raise Unsupported('list element changed in a loop')
                self.comps += cs
            self.tmpl = tuple(tm)

    def value(self, j):
        if self.mode in ('elems', 'scatter'):
            return self.tmpl
        base = V.seqlen(self.v0)
        nm = None
        d = self.delta
        if self.jn in d.fv or any(x.startswith('p!') for x in d.fv):
            cnt = T.mk('phlen', str(self.ident), typ='int').poly()
        else:
            cnt = T.smul(d, j)
        cnt = to_int(T.add_raw(base, cnt))
        return (SegPre(cnt, self.ident, self),)

    def read(self, v):
        if self.mode == 'scatter':
            i = self.changed[0]
            if len(v) != len(self.tmpl) or any(a is not b for t, (a, b) in enumerate(zip(v, self.tmpl)) if t != i) or not isinstance(v[i], V.SegStore) or v[i].base is not self.tmpl[i]:
                raise Unsupported('list overwritten irregularly in a loop')
            self.store = v[i]
            return []
        if self.mode == 'elems':
            out = []
            if len(v) != len(self.tmpl):
                raise Unsupported('list resized in a loop')
            for i, (a, b) in enumerate(zip(v, self.tmpl)):
                if i in self.changed:
                    if not isinstance(a, Seg1):
                        raise Unsupported('list element became conditional')
                    read_comps(a.v, b.v, out)
                elif a is not b:
                    raise NewElem()
            return out
        if not v or not isinstance(v[0], SegPre) or v[0].ident != self.ident:
            raise Unsupported('list not append-only in a loop')
        self.appended = v[1:]
        return []

    def read_prefix(self, I, idx):
        """element idx of the list at the start of iteration j (idx provably inside)"""
        base = V.seqlen(self.v0)
        if I.prove(T.lt(idx, base)):
            return I.lib.seg_get(self.v0, idx)
        if I.prove(T.le(base, idx)) and self.delta.int_value() == 1 and len(self.elem_hint) == 1 and isinstance(self.elem_hint[0], Seg1):
            h = self.elem_hint[0].v
            if is_num(h):
                p = to_poly(h)
                a = T.mk('phelem', str(self.ident), T.sub(idx, base), typ=typ_of(p) if typ_of(p) != 'int' else 'real')
                r = a.poly()
                r.pt = 'float'
                return r
        raise Unsupported('read of an element added by an earlier iteration')


class DictPh(Ph):
    _id = 0

    def install(self, v1):
        v0 = self.v0
        self.comps = []
        k = 0
        while k < len(v0) and k < len(v1) and v0[k] is v1[k]:
            k += 1
        if k == len(v0):
            self.mode = 'append'
            DictPh._id += 1
            self.ident = DictPh._id
            self.hint = v1[k:]
        else:
            if len(v0) != len(v1):
                raise Unsupported('dict changed and resized in a loop')
            self.mode = 'elems'
            self.changed = [i for i in range(len(v0)) if v0[i] is not v1[i]]
            tm = list(v0)
            for i in self.changed:
                a, b = v0[i], v1[i]
                if not (isinstance(a, DEnt) and isinstance(b, DEnt) and a.cnt is None and b.cnt is None):
                    raise Unsupported('dict family changed in a loop')
                cs = []
                tm[i] = DEnt(None, a.k, build_value(a.v, b.v, cs))
                if isinstance(tm[i].v, Poison):
                    raise Unsupported('dict value changed in a loop')
                self.comps += cs
            self.tmpl = tuple(tm)

    def value(self, j):
        if self.mode == 'elems':
            return self.tmpl
        self.j = j
        return (DPre(self.ident, None, self),)

    def contains(self, I, k):
        """False when no earlier iteration can have stored under k, None otherwise"""
        for e in self.hint:
            if isinstance(e, DPre) or e.cnt is not None or mentions(e.v, set()) and False:
                return None
            nm, i = T.newvar('i')
            ki = vsubst(e.k, {self.jn: to_int(i)})
            mark = len(I.facts)
            I.facts += [T.ge0(i), T.lt(i, self.j)]
            try:
                c = I.lib.key_eq(ki, k)
                if c is not False and not (c is not True and I.prove(T.bnot(to_b(c)))):
                    return None
            finally:
                del I.facts[mark:]
        return False

    def read(self, v):
        if self.mode == 'elems':
            out = []
            if len(v) != len(self.tmpl):
                raise Unsupported('dict resized in a loop')
            for i, (a, b) in enumerate(zip(v, self.tmpl)):
                if i in self.changed:
                    read_comps(a.v, b.v, out)
                elif a is not b:
                    raise NewElem()
            return out
        if not v or not isinstance(v[0], DPre) or v[0].ident != self.ident:
            raise Unsupported('dict not append-only in a loop')
        self.appended = v[1:]
        if len(self.appended) != len(self.hint):
            raise Unsupported('dict grows irregularly in a loop')
        for a, b in zip(self.appended, self.hint):
            if a.cnt is not None or b.cnt is not None or not veq_quick(a.k, b.k):
                raise Unsupported('dict keys vary in a loop')
        return []


class SetPh(Ph):
    """a set that an iteration only adds elements to.  Whether iteration i added its p-th element is the
    value of a 0/1 function of i, defined (after the loop is known) by the condition under which it did."""
    _id = 0

    def install(self, v1):
        v1 = self.items(v1)
        v0 = self.items(self.v0)
        if any(a is not b for a, b in zip(v0, v1)) or len(v1) < len(v0):
            raise Unsupported('set changed in a loop')
        SetPh._id += 1
        self.ident, self.added = SetPh._id, v1[len(v0):]
        self.comps = []

    def items(self, v):
        if self.loc.slot == 'items':
            return v
        if type(v) is PySet and v.sym is None:
            return v.s['items']
        raise Unsupported('set rebound in a loop')

    def wrap(self, items):
        if self.loc.slot == 'items':
            return items
        r = PySet(items)
        r.frozen = True
        return r

    def value(self, j):
        return self.wrap((V.GPre(self, j),))

    def groups(self, added):
        ks = [g.cond.key if isinstance(g, V.GPart) else 'true' for g in added]
        return [ks.index(k) for k in ks]

    def grow(self, p, i):
        p = self.groups(self.added)[p]
        return T.eq(to_int(T.app(f'grow {self.ident} {p}', to_int(i))), T.ONE)

    def elem(self, g, i):
        v = g.v if isinstance(g, V.GPart) else g
        if isinstance(g, (V.GFam, V.GPre)):
            raise Unsupported('set grows irregularly in a loop')
        return vsubst(v, {self.jn: to_int(i)})

    def member(self, lib, j, x):
        acc = to_b(lib.guarded_member(self.items(self.v0), x))
        for p, g in enumerate(self.added):
            nm, i = T.newvar('i')
            i = to_int(i)
            acc = T.bor(acc, T.bnot(T.forall(j, nm, T.bnot(T.band(self.grow(p, i), to_b(lib.value_eq(x, self.elem(g, i))))))))
        return acc

    def read(self, v):
        v = self.items(v)
        if not v or not isinstance(v[0], V.GPre) or v[0].ph is not self:
            raise Unsupported('set not growing in a loop')
        new = v[1:]
        if len(new) != len(self.added) or self.groups(new) != self.groups(self.added) or not all(veq_quick(self.elem(a, to_int(T.var(self.jn))), self.elem(b, to_int(T.var(self.jn)))) for a, b in zip(new, self.added)):
            self.added = new
            raise NewElem()
        self.added = new
        return []

    def define(self, I, n, sol):
        """axioms of the grow functions"""
        for p, g in enumerate(self.added):
            c = sol_subst_any(g.cond, sol, self.jn, to_int(T.var(self.jn))) if isinstance(g, V.GPart) else T.TRUE
            v = self.elem(g, to_int(T.var(self.jn)))
            if loopvars((c.fv | n.fv | frozenset(V.vfv(v))) - {self.jn}):
                raise Unsupported('set grows in a nested loop')

            def ax(a, c=c, p=p):
                i = a.args[1]
                b = c.subst({self.jn: i})
                me = T.eq(to_int(a.poly()), T.ONE)
                return [T.bor(T.lt(i, T.ZERO), T.le(n, i), T.band(T.bor(T.bnot(me), b), T.bor(me, T.bnot(b))))]
            S.AXIOMS[f'grow {self.ident} {p}'] = ax
            GROW.append((self, p, c, n))

    def final(self, n):
        out = list(self.items(self.v0))
        for p, g in enumerate(self.added):
            out.append(V.GFam(n, lambda i, p=p: self.grow(p, i), lambda i, g=g: self.elem(g, i)))
        return self.wrap(tuple(out))


GROW = []


def as_grow(c, jn, n):
    """the condition under which iteration jn adds an element, when that is one of the grow functions"""
    for ph, p, d, m in GROW:
        if ph.jn == jn and d.key == c.key and m.key == n.key:
            return ph.grow(p, to_int(T.var(jn)))
    return c


class NewElem(Exception):
    pass


def make_ph(loc, v0):
    if loc.slot == 'segs':
        return ListPh(loc, v0)
    if loc.slot == 'ents':
        return DictPh(loc, v0)
    if loc.slot == 'items' or (isinstance(v0, PySet) and v0.sym is None):
        return SetPh(loc, v0)
    return NumPh(loc, v0)


# ------------------------------------------------------------------ the rule
def summarise(I, n, run, probe=None):
    I.tick()
    if I.prove(T.le(n, T.ZERO)) and probe is None:
        return False
    jn, j = T.newvar('j')
    j = to_int(j)
    base_facts = [T.ge0(j), T.lt(j, n)]
    W = {}           # Loc -> Ph
    hints = {}
    rng0 = I.rng.s['k']
    label0 = I.lib.rng_label
    outs = None
    birth0 = next(V._birth)
    clobbered = []   # arrays bound before the loop that an iteration may change in place through a rebound name
    for rnd in range(14):
        mark = len(I.trail)
        birth = next(V._birth)
        I.lib.rng_label = label0 + (('it', rng0, j),)
        try:
            for l, ph in W.items():
                I.trail.append((l.obj, l.slot, l.obj.s.get(l.slot, UNDEF)))
                l.obj.s[l.slot] = ph.value(j)
            I.trail.append((I.rng, 'k', rng0))
            I.rng.s['k'] = T.ZERO
            for v0 in clobbered:
                I.trail.append((v0, 'val', v0.s['val']))
                v0.s['val'] = Poison('array changed in place through a loop-carried name')
            outs = I.explore(lambda: run(j), base_facts)
            hit = placeholders_in_place(W, outs, birth0)
            merged = merge_for_hints(I, outs)
        finally:
            I.undo(mark, birth)
            I.lib.rng_label = label0
        again = False
        for v0 in hit:
            if not any(v0 is x for x in clobbered):
                clobbered.append(v0)
                again = True
        for l, v1 in merged.items():
            if l.obj is I.rng:
                continue
            if l.obj.birth > birth0:
                raise Unsupported('in-place change of an object that the loop rebinds')
            if l not in W:
                v0 = l.obj.s.get(l.slot, UNDEF)
                ph = make_ph(l, v0)
                ph.jn = jn
                ph.install(v1)
                W[l] = ph
                hints[l] = v1
                again = True
        if again:
            continue
        # check that the component types were wide enough
        for l, ph in W.items():
            v1 = merged.get(l, ph.value(j))
            try:
                vals = ph.read(v1)
            except NewElem:
                if not isinstance(ph, SetPh):
                    ph.install(v1 if not isinstance(ph, (ListPh, DictPh)) else widen_tmpl(ph, v1))
                again = True
                continue
            if isinstance(ph, SetPh):
                continue
            if isinstance(ph, ListPh) and ph.mode == 'append':
                d = V.seqlen(ph.appended)
                if d.key != ph.delta.key or [type(x) for x in ph.appended] != [type(x) for x in ph.elem_hint]:
                    again = again or d.key != ph.delta.key
                    ph.delta = d
                ph.elem_hint = ph.appended
                continue
            wide = False
            for c, v in zip(ph.comps, vals):
                if needs_widen(c, v):
                    wide = True
            if wide:
                ph.install(v1)
                again = True
            for c, v in zip(ph.comps, vals):
                c.step = v
        if not again:
            break
    else:
        raise Unsupported('loop summary does not stabilise')
    # outcomes
    normal = [o for o in outs if o.kind in ('normal', 'continue')]
    brk = [o for o in outs if o.kind == 'break']
    bad = [o for o in outs if o.kind in ('return', 'raise')]
    comps = [c for ph in W.values() for c in ph.comps]
    lists = {ph.ident: ph for ph in W.values() if isinstance(ph, ListPh) and ph.mode == 'append'}
    sol = solve_comps(I, comps, lists, jn, j)
    if probe is not None:
        return probe(sol, jn, j), jn
    drew = any(l.obj is I.rng for o in outs for l in o.mods)
    # break
    beta = None
    M = n
    if brk:
        b = T.bor(*[o.cond for o in brk])
        beta = sol_subst(b, sol, jn, j)
        bn, bb = T.close([jn], beta)
        M = T.mk('stop', n, bn, bb, typ='int').poly()
        M = to_int(M)
    if bad:
        # an iteration may leave the function: fork once, with a witness iteration
        for o in bad:
            c = sol_subst(o.cond, sol, jn, j)
            wn, w = T.newvar('w')
            w = to_int(w)
            cw = T.band(T.ge0(w), T.lt(w, n), c.subst({jn: w}))
            e = T.pred('exists_iteration', T.mk('lamb', T.forall(n, jn, T.bnot(c)), typ='int').poly()) if False else None
            none = T.forall(n, jn, T.bnot(c))
            if I.prove(none):
                continue
            if I.decide(T.bnot(none)):
                I.facts.append(cw)
                if o.kind == 'raise':
                    raise o.val
                raise Unsupported('return from inside a symbolic loop')
    # final state
    final = {}
    for ph in W.values():
        if isinstance(ph, SetPh):
            if brk:
                raise Unsupported('set grows in a loop with break')
            ph.define(I, n, sol)
    for l, ph in W.items():
        final[l] = final_value(I, ph, sol, jn, j, M, n, normal, brk, merged.get(l))
    for v0 in clobbered:
        I.set(v0, 'val', Poison('array changed in place through a loop-carried name'))
    for l, v in final.items():
        I.set(l.obj, l.slot, v)
    if drew:
        I.set(I.rng, 'k', T.add(rng0, T.ONE))
    return bool(brk)


def holds(v, a, seen=None):
    """the array object a is reachable from v"""
    if v is a:
        return True
    if isinstance(v, (Poly, B, str, int, float, bool)) or v is None:
        return False
    seen = set() if seen is None else seen
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, (tuple, list)):
        return any(holds(x, a, seen) for x in v)
    if isinstance(v, Seg1):
        return holds(v.v, a, seen)
    if isinstance(v, DEnt):
        return v.cnt is None and (holds(v.k, a, seen) or holds(v.v, a, seen))
    if isinstance(v, Arr):
        return False
    if isinstance(v, SymObj):
        return any(holds(x, a, seen) for x in v.attrs.values())
    if isinstance(v, Obj):
        return any(holds(x, a, seen) for x in v.s.values())
    return False


def placeholders_in_place(W, outs, birth0):
    """an iteration changes in place the array a loop-carried name starts with: the name carries the changed array.
    Only for arrays no other name can hold; the array bound before the loop becomes unreadable through other names."""
    hit = []
    for l, ph in W.items():
        if not isinstance(ph, NumPh) or ph.raw or not isinstance(ph.tmpl, Arr):
            continue
        A = ph.tmpl
        al = Loc(A, 'val')
        if not any(al in o.mods for o in outs):
            continue
        if isinstance(ph.v0, Arr):
            hit.append(ph.v0)
        for o in outs:
            end = o.mods.get(l, A)
            if al in o.mods:
                new = o.mods.pop(al)
                if end is A:
                    end = Arr(new)
                    o.mods[l] = end
            if end is not A and isinstance(end, Arr) and end.birth <= birth0:
                raise Unsupported('loop-carried array changed in place may be shared')
            for l2, v in o.mods.items():
                if l2 != l and (holds(v, A) or (end is not A and holds(v, end))):
                    raise Unsupported('loop-carried array changed in place may be shared')
    return hit


def widen_tmpl(ph, v1):
    # reinstall against the original v0: elements that differ from v0
    return tuple(x for x in v1)


def needs_widen(c, v):
    if c.shape == ():
        if v.shape != ():
            return True
        if _tl[typ_of(v)] > _tl[c.typ]:
            return True
        return False
    if c.shape is None:
        return False
    if v.shape is None:
        return True
    if v.shape == ():
        return not v.is_zero()
    return not (T.dims_eq(c.shape, v.shape) or (T.scalar_like(c.var) and T.scalar_like(v)))


def merge_for_hints(I, outs):
    ok = [o for o in outs if o.kind in ('normal', 'continue', 'break')]
    if not ok:
        # every path leaves the loop
        return {}
    normal = [o for o in ok if o.kind != 'break'] or ok
    locs = {}
    for o in ok:
        for l in o.mods:
            locs[l] = None
    for l in locs:
        old = l.obj.s.get(l.slot, UNDEF)
        vals = [(o.cond, o.mods.get(l, old)) for o in normal]
        try:
            locs[l] = I.merge_vals(vals, l)
        except MergeFail as e:
            if isinstance(l.obj, Env):
                locs[l] = Poison('differs between paths')
            else:
                raise Unsupported(f'cannot merge loop paths: {e}')
    return locs


# ------------------------------------------------------------------ recurrences
class Sol:
    def __init__(self):
        self.fn = {}        # component name -> fn(idx Poly) -> Poly
        self.elems = {}     # list ident -> fn(i) -> Poly (numeric appended element)
        self.lens = {}


def replace_kind(t, kind, f):
    """replace atoms of a given kind by f(atom) -> Poly"""
    ats = [a for a in S.atoms_of(t).values() if a.kind == kind]
    if not ats:
        return t
    # innermost first
    for a in sorted(ats, key=lambda a: a.height):
        t = S._replace(t, {a.key: f(a)})
    return t


def deep_kinds(t, kind, out=None):
    """atoms of a kind anywhere, also under binders"""
    res = {}

    def go(x):
        if isinstance(x, T.Atom):
            if x.kind == kind:
                res[x.key] = x
            for y in x.args:
                go(y)
        elif isinstance(x, Poly):
            for sc, ms in x.terms:
                for a, _ in sc:
                    go(a)
                for a, _ in ms:
                    go(a)
        elif isinstance(x, B):
            for y in x.args:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(t)
    return res


def solve_comps(I, comps, lists, jn, j):
    sol = Sol()
    unres = {c.name: c for c in comps}
    step = {c.name: c.step for c in comps}
    for c in comps:
        if c.step is None:
            raise Unsupported('loop component without step')
    # list elements readable from earlier iterations
    elem_expr = {}
    for ident, ph in lists.items():
        if len(ph.appended) == 1 and isinstance(ph.appended[0], Seg1) and is_num(ph.appended[0].v):
            elem_expr[str(ident)] = to_poly(ph.appended[0].v)

    def expand(t):
        """substitute resolved components (at j) and earlier list elements"""
        for _ in range(6):
            t = t.subst({nm: sol.fn[nm](j) for nm in sol.fn if nm in t.fv})
            ph = deep_kinds(t, 'phelem')
            if not ph:
                break
            m = {}
            for k, a in ph.items():
                e = elem_expr.get(a.args[0])
                if e is None:
                    raise Unsupported('list element of an earlier iteration')
                idx = a.args[1]
                e = e.subst({nm: sol.fn[nm](j) for nm in sol.fn if nm in e.fv})
                mm = {jn: idx}
                for nm in unres:
                    if nm in e.fv:
                        c = unres[nm]
                        mm[nm] = Poly(T.mk('sysref', nm, idx, shape=c.shape, typ=c.typ).poly().terms, c.shape)
                m[k] = e.subst(mm)
            t = S._replace(t, m)
            if deep_kinds(t, 'phelem').keys() == ph.keys():
                raise Unsupported('circular list reads')
        return t
    progress = True
    while unres and progress:
        progress = False
        for nm in list(unres):
            c = unres[nm]
            e = expand(step[nm])
            refs = {a.args[0] for a in deep_kinds(e, 'sysref').values()}
            deps = (set(e.fv) | refs) & set(unres)
            if deps <= {nm} and not refs:
                d = T.add_raw(e, T.neg(c.var))
                d = Poly(d.terms, c.shape)
                if nm not in d.fv:
                    init = c.init
                    if d.is_zero():
                        sol.fn[nm] = lambda i, init=init: init
                    else:
                        def f(i, init=init, d=d, c=c):
                            kn, kv = T.newvar('k')
                            s = T.bigsum(i, kn, d.subst({jn: kv}))
                            r = T.add_raw(Poly(init.terms, c.shape), s)
                            r.shape = c.shape
                            r.pt = c.pt
                            return r
                        sol.fn[nm] = f
                    del unres[nm]
                    progress = True
                    continue
            if not deps:
                def f(i, e=e, c=c):
                    prev = e.subst({jn: T.sub(i, T.ONE)})
                    if S.prove(T.le(T.ONE, i), I.facts):
                        return prev
                    r = T.ite(T.le(T.ONE, i), prev, c.init)
                    return Poly(r.terms, c.shape, c.pt)
                sol.fn[nm] = f
                del unres[nm]
                progress = True
    if unres:
        steps = {nm: expand(step[nm]) for nm in unres}
        for nm in list(unres):
            sysd = build_sys(nm, unres, steps, jn, j)
            c = unres[nm]
            sol.fn[nm] = (lambda i, sysd=sysd, c=c: sys_at(sysd, i, c))
        sol.sysnames = set(unres)
    else:
        sol.sysnames = set()
    # numeric list elements
    sol.elem_expr = elem_expr
    return sol


def sys_deps(e, names):
    out = []
    seen = set()

    def add(n):
        if n in names and n not in seen:
            seen.add(n)
            out.append(n)
    for nm in ordered_vars(e):
        add(nm)
    return out


def ordered_vars(t):
    """free variable / sysref names in a deterministic structural order"""
    out = []
    seen = set()

    def go(x):
        if isinstance(x, T.Atom):
            if x.key in seen:
                return
            seen.add(x.key)
            if x.kind == 'var':
                out.append(x.args[0])
            elif x.kind == 'sysref':
                out.append(x.args[0])
            for y in x.args:
                go(y)
        elif isinstance(x, Poly):
            for (sc, ms) in sorted(x.terms, key=lambda w: skel(w)):
                for a, _ in sc:
                    go(a)
                for a, _ in ms:
                    go(a)
        elif isinstance(x, B):
            for y in x.args:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(t)
    return out


def skel(w):
    sc, ms = w
    return (len(ms), len(sc), ''.join(a.kind for a, _ in ms), ''.join(a.kind for a, _ in sc))


def build_sys(root, unres, steps, jn, j):
    """closed system for component `root`: sysdef(inits, bound names (j, comps...), steps)"""
    order = [root]
    k = 0
    while k < len(order):
        for d in sys_deps(steps[order[k]], unres):
            if d not in order:
                order.append(d)
        k += 1
    num_of = {nm: i for i, nm in enumerate(order)}
    inits = tuple(unres[nm].init for nm in order)
    body = []
    for nm in order:
        e = steps[nm]
        refs = deep_kinds(e, 'sysref')
        if refs:
            m = {}
            for key, a in refs.items():
                m[key] = Poly(T.mk('sysref', '#%d' % num_of[a.args[0]], a.args[1], shape=a.shape, typ=a.typ).poly().terms, a.shape)
            e = S._replace(e, m)
        body.append(e)
    names = [jn] + order
    bn, bb = T.close(names, tuple(body))
    shapes = tuple(repr(unres[nm].shape is None) for nm in order)
    a = T.mk('sysdef', inits, bn, bb, shape=(), typ='int')
    return a


def sys_at(sysd, i, c):
    inits = sysd.args[0]
    iv = i.int_value()
    if iv == 0:
        return Poly(inits[0].terms, c.shape, c.pt)
    a = T.mk('sys', sysd, '0', i, shape=c.shape, typ=c.typ)
    r = a.poly()
    return Poly(r.terms, c.shape, c.pt)


def _rebuild_sys(a, m):
    sysd, which, i = a.args
    inits, bn, body = sysd.args
    i2 = i.subst(m)
    if sysd.fv & m.keys():
        names, vs, b = T.open_binder(bn, body)
        b = T.t_subst(b, m)
        bn2, bb = T.close(names, b)
        sysd = T.mk('sysdef', T.t_subst(inits, m), bn2, bb, shape=(), typ='int')
    shp = tuple(d.subst(m) for d in a.shape) if a.shape else a.shape
    if i2.int_value() == 0:
        return Poly(sysd.args[0][0].terms, shp)
    return T.mk('sys', sysd, which, i2, shape=shp, typ=a.typ).poly()


T.REBUILD['sys'] = _rebuild_sys


def _rebuild_args_sys(a, args):
    sysd, which, i = args
    if isinstance(sysd, Poly):
        sysd = next(iter(sysd.terms))[0][0][0]
    if i.int_value() == 0:
        return Poly(sysd.args[0][0].terms, a.shape)
    return T.mk('sys', sysd, which, i, shape=a.shape, typ=a.typ).poly()


T.REBUILD_ARGS['sys'] = _rebuild_args_sys


def unfold_sys(a):
    """sys(d, i+1) = step(i, sys(d, i)) for a one-component recursion (i+1 >= 1 is implied: sys(d, i) occurs as well)"""
    sysd, which, i = a.args
    inits, bn, body = sysd.args
    if len(inits) != 1 or len(body) != 1:
        return None
    names, vs, b = T.open_binder(bn, body)
    i0 = to_int(T.sub(i, T.ONE))

    def at(k):
        return Poly(inits[0].terms, a.shape) if k.int_value() == 0 else Poly(T.mk('sys', sysd, which, k, shape=a.shape, typ=a.typ).poly().terms, a.shape)
    e = b[0].subst({names[0]: i0, names[1]: at(i0)})
    refs = deep_kinds(e, 'sysref')
    if refs:
        if any(r.args[0] != '#0' for r in refs.values()):
            return None
        e = S._replace(e, {k: at(r.args[1]) for k, r in refs.items()})
    return Poly(e.terms, a.shape)


S.UNFOLD.append(unfold_sys)


def _stop_axioms(a):
    n, bn, body = a.args
    M = to_int(a.poly())
    out = [T.ge0(M), T.le(M, n), T.bor(T.le(n, T.ZERO), T.le(T.ONE, M))]
    return out


S.AXIOMS['stop'] = _stop_axioms


def sol_subst(t, sol, jn, idx):
    """value of a term of the generic iteration at iteration idx"""
    m = {}
    if isinstance(t, (Poly, B)):
        ph = deep_kinds(t, 'phelem')
        if ph:
            r = {}
            for k, a in ph.items():
                e = sol.elem_expr.get(a.args[0])
                if e is None:
                    raise Unsupported('list element of an earlier iteration')
                i0 = a.args[1]
                r[k] = sol_subst(e, sol, jn, i0)
            t = S._replace(t, r)
        fv = t.fv
    for nm, f in sol.fn.items():
        m[nm] = f(idx)
    m[jn] = idx
    if isinstance(t, (Poly, B)):
        m = {k: v for k, v in m.items() if k in t.fv}
        t = t.subst(m)
        rf = deep_kinds(t, 'sysref')
        if rf:
            t = S._replace(t, {k: sol.fn[a.args[0]](a.args[1].subst({jn: idx})) for k, a in rf.items() if a.args[0] in sol.fn})
        return t
    return vsubst_deep(t, m, sol, jn, idx)


def vsubst_deep(v, m, sol, jn, idx):
    if isinstance(v, (Poly, B)):
        return sol_subst(v, sol, jn, idx)
    if isinstance(v, Arr):
        a = Arr(sol_subst(v.val, sol, jn, idx))
        a.frozen = True
        return a
    if isinstance(v, tuple):
        return tuple(vsubst_deep(x, m, sol, jn, idx) for x in v)
    return vsubst(v, m)


def final_value(I, ph, sol, jn, j, M, n, normal, brk, merged):
    """value of the location after the loop (M iterations)"""
    # does the breaking iteration leave the same value as the merged normal one?
    if isinstance(ph, SetPh):
        return ph.final(n)
    if isinstance(ph, ListPh) and ph.mode == 'append':
        if brk:
            check_brk_list(I, ph, brk, merged, sol, jn, j)
        return list_final(ph, sol, jn, M, I.facts)
    if isinstance(ph, DictPh) and ph.mode == 'append':
        if brk:
            raise Unsupported('dict grows in a loop with break')
        out = list(ph.v0)
        grp = object() if len(ph.appended) > 1 else None
        for e in ph.appended:
            if isinstance(e, DPre):
                raise Unsupported('dict prefix')
            if e.cnt is None:
                out.append(DEnt(M, lambda i, e=e: snum(sol_subst_any(e.k, sol, jn, i)), lambda i, e=e: snum(sol_subst_any(e.v, sol, jn, i)), grp))
            else:
                if mentions(e.cnt, {jn}):
                    raise Unsupported('dict family of varying size')
                raise Unsupported('dict family inside a loop')
        return tuple(out)
    if isinstance(ph, ListPh) and ph.mode == 'scatter':
        if brk or len(normal) != 1:
            raise Unsupported('list overwritten conditionally in a loop')
        return scatter_final(I, ph, sol, jn, j, M)
    if isinstance(ph, (ListPh, DictPh)):
        vals = [sol.fn[c.name](M) for c in ph.comps]
        it = iter(vals)
        out = []
        for i, s in enumerate(ph.tmpl):
            if i in ph.changed:
                if isinstance(s, Seg1):
                    out.append(Seg1(fill(s.v, it)))
                else:
                    out.append(DEnt(None, s.k, fill(s.v, it)))
            else:
                out.append(s)
        return tuple(out)
    if ph.raw:
        if brk:
            check_brk(I, ph, brk, sol, jn, j)
        return sol.fn[ph.comps[0].name](M)
    if isinstance(ph.tmpl, Poison) or has_poison(ph.tmpl):
        # assigned in the loop only: defined afterwards when at least one iteration ran
        v = merged
        if v is None or isinstance(v, Poison) or brk:
            return Poison('assigned in a loop')
        if I.prove(T.le(T.ONE, M)):
            try:
                return freeze(sol_subst_any(v, sol, jn, T.sub(M, T.ONE)))
            except Unsupported:
                return Poison('assigned in a loop')
        return Poison('assigned in a loop that may not run')
    if brk:
        check_brk(I, ph, brk, sol, jn, j)
    return fill(ph.tmpl, iter([sol.fn[c.name](M) for c in ph.comps]))


INVERSE = {}          # app name -> name of its inverse (inverse(f(i)) = i is an axiom registered with the family)


def scatter_final(I, ph, sol, jn, j, M):
    """for j < M: list[r(j)] = v(j), r injective"""
    t = ph.changed[0]
    old = ph.v0[t]
    rel = to_int(sol_subst(to_poly(ph.store.rel), sol, jn, j))
    val = ph.store.val
    items = list(rel.terms.items())
    rest = T.sub(rel, j)
    inv = None
    if jn not in rest.fv:
        inv = lambda p: to_int(T.sub(p, rest))
    else:
        at = [(w, c) for w, c in items if jn in Poly({w: c}, ()).fv]
        if len(at) == 1 and at[0][1] == T.C1 and len(at[0][0][0]) == 1 and not at[0][0][1]:
            a, e = at[0][0][0][0]
            if e == 1 and a.kind == 'app' and a.args[0] in INVERSE and len(a.args) == 2 and a.args[1].key == j.key:
                off = T.sub(rel, a.poly())
                inv = lambda p: to_int(T.app(INVERSE[a.args[0]], to_int(T.sub(p, off))))
    if inv is None:
        raise Unsupported('list overwritten at positions that cannot be inverted')

    def fn(p):
        i = inv(p)
        o = old.fn(p)
        v = sol_subst_any(val, sol, jn, i)
        c = T.band(T.ge0(i), T.lt(i, M), T.eq(rel.subst({jn: i}), p))
        return num(to_int(T.ite(c, to_poly(v), to_poly(o)))) if to_poly(o).is_int() and to_poly(v).is_int() else num(T.ite(c, to_poly(v), to_poly(o)))
    out = list(ph.v0)
    out[t] = SegMap(old.cnt, fn)
    return tuple(out)


def check_brk(I, ph, brk, sol, jn, j):
    for o in brk:
        v = o.mods.get(ph.loc)
        vals = ph.read(v) if v is not None else [c.var for c in ph.comps]
        for c, x in zip(ph.comps, vals):
            d = T.add_raw(Poly(x.terms, c.shape), T.neg(Poly(c.step.terms, c.shape)))
            if d.is_zero():
                continue
            if not S.prove(T.eq0(d), I.facts + o.conds + [T.ge0(j)]):
                raise Unsupported('break leaves a different state')


def check_brk_list(I, ph, brk, merged, sol, jn, j):
    for o in brk:
        v = o.mods.get(ph.loc)
        if v is None:
            raise Unsupported('break before append')
        a, b = v[1:], ph.appended
        if len(a) != len(b):
            # extra conditional segments must be empty under the break condition
            k = min(len(a), len(b))
            for s in list(a[k:]) + list(b[k:]):
                if not S.prove(T.eq0(s.n()), I.facts + o.conds + [T.ge0(j)]):
                    raise Unsupported('break leaves a different list')
            a, b = a[:k], b[:k]
        for x, y in zip(a, b):
            if x is y:
                continue
            if isinstance(x, Seg1) and isinstance(y, Seg1):
                if x.v is y.v or veq_quick(x.v, y.v):
                    continue
                if is_num(x.v) and is_num(y.v) and S.prove(T.eq0(T.sub(to_poly(x.v), to_poly(y.v))), I.facts + o.conds):
                    continue
                if isinstance(x.v, Arr) and isinstance(y.v, Arr) and S.prove(T.eq0(T.add_raw(x.v.val, T.neg(y.v.val))), I.facts + o.conds):
                    continue
            if S.prove(T.eq0(x.n()), I.facts + o.conds) and S.prove(T.eq0(y.n()), I.facts + o.conds):
                continue
            if isinstance(x, SegMap) and isinstance(y, SegMap) and (x.fn is y.fn) and S.prove(T.eq0(T.sub(x.cnt, y.cnt)), I.facts + o.conds):
                continue
            raise Unsupported('break leaves a different list')


def has_poison(t):
    if isinstance(t, Poison):
        return True
    if isinstance(t, tuple):
        return any(has_poison(x) for x in t)
    return False


def freeze(v):
    if isinstance(v, Arr):
        v.frozen = True
    return v


def snum(v):
    return num(v) if isinstance(v, Poly) and v.shape == () else v


def fill(t, it):
    if isinstance(t, tuple):
        return tuple(fill(x, it) for x in t)
    p = next(it)
    if isinstance(t, Arr):
        return Arr(p)
    return num(p)


def sol_subst_any(v, sol, jn, idx):
    if isinstance(v, (Poly, B, Arr, tuple)):
        r = sol_subst(v, sol, jn, idx)
        return r
    m = {nm: f(idx) for nm, f in sol.fn.items()}
    m[jn] = idx
    return vsubst(v, m)


def seg_subst(s, sol, jn, idx):
    if isinstance(s, Seg1):
        return Seg1(snum(sol_subst_any(s.v, sol, jn, idx)))
    if isinstance(s, SegMap):
        fn = s.fn
        return SegMap(to_int(sol_subst(s.cnt, sol, jn, idx)), lambda i: snum(sol_subst_any(fn(i), sol, jn, idx)), s.inj)
    if isinstance(s, SegFlat):
        f = s.segsfn
        return SegFlat(to_int(sol_subst(s.cnt, sol, jn, idx)), lambda i: [seg_subst(x, sol, jn, idx) for x in f(i)])
    raise Unsupported('list prefix in an element')


def list_final(ph, sol, jn, M, facts=()):
    app = ph.appended
    out = list(ph.v0)
    if not app:
        return tuple(out)
    names = {jn} | set(sol.fn)
    if len(app) == 1:
        s = app[0]
        if isinstance(s, Seg1):
            out.append(SegMap(M, lambda i: snum(sol_subst_any(s.v, sol, jn, i))))
            return tuple(out)
        if isinstance(s, SegMap) and not (s.cnt.fv & names):
            # at most one element per iteration, guarded by a loop-invariant condition
            c = single_guard(s.cnt)
            if c is not None:
                out.append(SegMap(to_int(T.ite(c, M, T.ZERO)), lambda i: snum(sol_subst_any(s.fn(T.ZERO), sol, jn, i))))
                return tuple(out)
        if isinstance(s, SegMap) and single_guard(s.cnt) is not None:
            c = sol_subst_any(single_guard(s.cnt), sol, jn, to_int(T.var(jn)))
            c = as_grow(c, jn, M)
            out.append(filtered(M, jn, c, lambda i: snum(sol_subst_any(s.fn(T.ZERO), sol, jn, i)), facts))
            return tuple(out)
    out.append(SegFlat(M, lambda i: [seg_subst(s, sol, jn, i) for s in app]))
    return tuple(out)


def loopvars(t):
    """the variables of a term that a later substitution can replace (bound or generated ones)"""
    return sorted(x for x in t if '!' in x or _re.fullmatch(r'b\d+_\d+', x))


def filtered(n, name, c, fn, facts=()):
    """the elements fn(i), i < n, with c(i), in their order"""
    fvs = loopvars((c.fv | n.fv) - {name})
    given, near = c, None
    if not fvs and any(x.kind == 'maxofs' for x in S.atoms_of(c).values()):
        c, near = near_extremum(n, name, c, facts)
    for n2, name2, c2, fvs2 in FILTERED:
        if fvs2 == fvs and n2.key == n.key:
            e = c2.subst({name2: to_int(T.var(name))})
            if e.key == c.key:
                break
            rng = list(facts) + [T.ge0(to_int(T.var(name))), T.lt(to_int(T.var(name)), n)]
            if S.prove(T.bor(T.bnot(c), e), rng) and S.prove(T.bor(c, T.bnot(e)), rng):
                c = e       # the same elements
                break
    else:
        FILTERED.append((n, name, c, fvs))
    bn, (nn, body) = T.close([name] + fvs, (n, c))
    ident = f'{bn} {nn.key} {body.key}'
    if near is not None:
        NEAR[ident] = near
    sel, rank, card = 'sel ' + ident, 'selrank ' + ident, 'selcard ' + ident
    fa = [T.var(x, *(T._varinfo(c, x) or T._varinfo(n, x) or ('int', ()))) for x in fvs]

    def parts(args):
        m = dict(zip(fvs, args))
        nn = to_int(n.subst(m))
        cc = lambda i: c.subst({**m, name: to_int(i)})
        N = to_int(T.app(card, T.ZERO, *args))
        f = lambda g, i: to_int(T.app(g, to_int(i), *args))
        return nn, cc, N, f

    def sel_ax(a):
        j, args = a.args[1], a.args[2:]
        nn, cc, N, f = parts(args)
        x = to_int(a.poly())
        an, p = T.newvar('a')
        b_n, q = T.newvar('b')
        mono = T.forall(N, an, T.forall(N, b_n, T.bor(T.le(to_int(q), to_int(p)), T.lt(f(sel, p), f(sel, q)))))
        return [T.bor(T.lt(j, T.ZERO), T.le(N, j), T.band(T.ge0(x), T.lt(x, nn), cc(x), T.eq(f(rank, x), j))), mono]

    def rank_ax(a):
        x, args = a.args[1], a.args[2:]
        nn, cc, N, f = parts(args)
        j = to_int(a.poly())
        return [T.bor(T.lt(x, T.ZERO), T.le(nn, x), T.bnot(cc(x)), T.band(T.ge0(j), T.lt(j, N), T.eq(f(sel, j), x)))]

    def card_ax(a):
        nn, cc, N, f = parts(a.args[2:])
        out = [T.ge0(N), T.bor(T.le(N, nn), T.lt(nn, T.ZERO)), T.bor(T.ge0(nn), T.eq(N, T.ZERO))]
        if ident in NEAR:
            out += [T.bor(T.lt(w, T.ZERO), T.le(nn, w), T.bnot(h), T.le(T.ONE, N)) for w, h in NEAR[ident]]
        return out

    def once(f):
        memo = {}

        def g(a):
            if a.key not in memo:
                memo[a.key] = f(a)
            return memo[a.key]
        return g
    S.AXIOMS[sel], S.AXIOMS[rank], S.AXIOMS[card] = once(sel_ax), once(rank_ax), once(card_ax)
    INVERSE[sel] = rank
    FILTERS[sel] = (rank, card)
    CHOSEN[card] = (n, name, given, fvs)
    s = SegMap(to_int(T.app(card, T.ZERO, *fa)), lambda j: fn(to_int(T.app(sel, to_int(j), *fa))))
    return s


NEAR = {}
OPAQUE = {}


def near_extremum(n, name, c, facts):
    """a condition on how an element compares with an extremum, as a predicate of its own;
    with the (position, predicate) of the extremum for which the condition holds there"""
    from . import libs
    i = to_int(T.var(name))
    bn, body = T.close([name], (n, c))
    key = (bn, body[0].key, body[1].key)
    if key not in OPAQUE:
        links = []
        for a in S.atoms_of(c).values():
            if a.kind == 'maxofs':
                M, w = a.poly(), libs.extremal_at(a)
                for cnt, at, h in libs.attained(a):
                    cw = c.subst({name: w})
                    if cnt.key == n.key and set(S.atoms_of(at(w))) <= set(S.atoms_of(cw)) and \
                            S.prove(cw, [T.ge0(w), T.lt(w, cnt), T.eq(M, at(w))]):
                        links.append((w, h))
        OPAQUE[key] = f'near extremum {len(OPAQUE)}', links
    pname, links = OPAQUE[key]
    return T.eq(to_int(T.app(pname, i)), T.ONE), links


FILTERS = {}
CHOSEN = {}          # number of elements -> the families they are chosen from
FILTERED = []


def single_guard(cnt):
    if len(cnt.terms) == 1:
        ((sc, ms), c), = cnt.terms.items()
        if c == T.C1 and len(sc) == 1 and sc[0][1] == 1 and sc[0][0].kind == 'ite':
            a = sc[0][0]
            if a.args[1].int_value() == 1 and a.args[2].int_value() == 0:
                return a.args[0]
            if a.args[1].int_value() == 0 and a.args[2].int_value() == 1:
                return T.bnot(a.args[0])
    return None


# ------------------------------------------------------------------ unitarity by induction
def _sys_unitary(sysd, which):
    """every value of component 0 is unitary if its initial value is and each step preserves it"""
    inits, bn, body = sysd.args
    if not T.poly_unitary(inits[0]):
        return False
    names, vs, b = T.open_binder(bn, body)
    a = next(iter(vs[1].terms))
    atom = (a[0] or a[1])[0][0]
    un, u = T.newvar('u', 'complex', atom.shape, unit=True)
    e = b[0].subst({names[1]: u})
    return T.poly_unitary(e)


T.SYS_UNITARY_HOOK = _sys_unitary
