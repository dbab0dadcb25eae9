"""Semantics of Python built-ins and containers; numpy / scipy / PennyLane live in libnp / libqml."""
import ast
import itertools as _it
from . import terms as T
from . import solve as S
from .terms import Poly, B, Unsupported
from .values import *
from . import values as V
from .interp import RaiseSig, PathDead, EXC, EXC_PARENT


def pv(x):
    return to_poly(x)


# what is known about a picked element: +1 (largest) or -1, (element, key value) of every candidate in order, the
# fact that says so, and the weaker one that it is a candidate
PICKS = {}
EXTREMA = {}       # the same extremum again


def leaves(v):
    return [x for y in v for x in leaves(y)] if isinstance(v, tuple) else [v]


def shape_of(v):
    return tuple(shape_of(x) for x in v) if isinstance(v, tuple) else ()


def refill(v, it):
    return tuple(refill(x, it) for x in v) if isinstance(v, tuple) else next(it)


def flat(s):
    from .loops import SegFlat
    return isinstance(s, SegFlat)


class TypeV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<type {self.name}>'


class DictView:
    def __init__(self, d, what):
        self.d, self.what = d, what


class Libs:
    def __init__(self, I):
        self.I = I
        self.rng_label = ()
        from . import libnp, libqml
        self.np = libnp.Np(self)
        self.qml = libqml.Qml(self)
        self._mods = {}

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name not in self._mods:
            self._mods[name] = ModuleV(name, None)
        return self._mods[name]

    def member(self, mod, name):
        try:
            return self.mod_attr(self.module(mod), name)
        except Unsupported as e:
            return Poison(str(e))

    def mod_attr(self, m, a):
        n = m.name
        if n in ('numpy', 'scipy.linalg', 'numpy.linalg', 'numpy.random'):
            return self.np.attr(n, a)
        if n.split('.')[0] == 'pennylane':
            return self.qml.attr(n, a)
        if n == 'networkx':
            from . import libnx
            return libnx.attr(self, a)
        if n == 'itertools':
            f = getattr(self, 'it_' + a, None)
            if f:
                return Builtin('itertools.' + a, f)
        if n == 'copy' and a in ('copy', 'deepcopy'):
            return Builtin('copy.' + a, getattr(self, 'copy_' + a))
        if n == 'math':
            if a == 'pi':
                return self.np.attr('numpy', 'pi')
            if a in ('sqrt', 'log2', 'cos', 'sin', 'exp', 'prod'):
                return self.np.attr('numpy', a)
        if n == 'os' and a == 'path':
            return ModuleV('os.path', None)
        if n == 'typing':
            return TypingV()
        if n == 'sympy' and a in ('Symbol', 'Mul', 'Pow'):
            return TypeV('sympy.' + a)
        if n == 'collections' and a == 'OrderedDict':
            return TypeV('dict')
        if n == 'functools' and a == 'reduce':
            return Builtin('reduce', self.b_reduce)
        raise Unsupported(f'{n}.{a}')

    # ------------------------------------------------------------ builtins
    def builtins(self):
        d = {}
        for k in dir(self):
            if k.startswith('b_'):
                d[k[2:]] = Builtin(k[2:], getattr(self, k))
        for e in EXC:
            d[e] = ExcV(e)
        for t in ('int', 'float', 'complex', 'bool', 'str', 'list', 'tuple', 'dict', 'set', 'object', 'frozenset'):
            d[t] = TypeV(t)
        d['set'] = TypeV('set')
        d['True'], d['False'], d['None'] = True, False, None
        return d

    def call_type(self, t, args, kw):
        n = t.name
        if n == 'int':
            return self.b_int_(args, kw)
        if n == 'float' or n == 'complex':
            x = args[0] if args else 0
            if isinstance(x, (Arr, Poly, int, B, bool)):
                p = pv(x)
                if not T.scalar_like(p):
                    raise RaiseSig('TypeError', 'float of array')
                p = T.as_scalar(p)
                return Poly(p.terms, (), n)
            raise Unsupported('float()')
        if n == 'bool':
            return from_b(to_b(self.truth(args[0])))
        if n == 'str':
            if isinstance(args[0], (str, OpaqueStr)):
                return args[0]
            if isinstance(args[0], int) and not isinstance(args[0], bool):
                return str(args[0])
            return OpaqueStr(['str', args[0]])
        if n == 'list':
            return PyList(self.segs(args[0]) if args else ())
        if n == 'tuple':
            if not args:
                return ()
            sg = self.segs(args[0])
            return tuple(s.v for s in sg) if elementwise(sg) else SymSeq(sg)
        if n == 'dict':
            if args:
                r = self.dict_from_pairs(self.segs(args[0])) if not isinstance(args[0], PyDict) else PyDict(args[0].ents)
            else:
                r = PyDict()
            for k, v in kw.items():
                self.setitem(r, k, v)
            return r
        if n in ('set', 'frozenset'):
            if not args:
                return PySet()
            return self.make_set(self.segs(args[0]))
        if n == 'object':
            return SymObj('object')
        raise Unsupported('call of type ' + n)

    def make_set(self, sg):
        if elementwise(sg):
            items = []
            for s in sg:
                known = [self.key_eq(s.v, x) for x in items]
                if any(k is True for k in known):
                    continue
                if any(k is not False for k in known):
                    for k, x in zip(known, items):
                        if k is not False and self.I.decide(k):
                            break
                    else:
                        items.append(s.v)
                    continue
                items.append(s.v)
            return PySet(items)
        return PySet((), sym=tuple(sg))

    # sets {f(i) | i < K} of families with a registered inverse, and boolean combinations of them
    def base_of(self, s):
        """(family name, count) of a segment f(i), i < K with a registered inverse"""
        from . import loops
        if not isinstance(s, SegMap):
            return None
        nm, i = T.newvar('i')
        v = s.fn(to_int(i))
        if not is_num(v):
            return None
        q = to_poly(v)
        if len(q.terms) != 1:
            return None
        ((sc, ms), c), = q.terms.items()
        if ms or c != T.C1 or len(sc) != 1 or sc[0][1] != 1:
            return None
        a = sc[0][0]
        if a.kind == 'app' and a.args[0] in loops.INVERSE and len(a.args) == 2 and a.args[1].key == i.key and not loops.loopvars(s.cnt.fv):
            return (a.args[0], s.cnt)
        return None

    def set_expr(self, v):
        """(bases, minterms) of a symbolic set; minterms are tuples of membership in the bases"""
        if getattr(v, 'expr', None) is not None:
            return v.expr
        if v.sym is None and not V.plain(v):
            return ((), frozenset())
        if v.sym is not None and len(v.sym) == 1:
            b = self.base_of(v.sym[0])
            if b is not None:
                return ((b,), frozenset([(True,)]))
        raise Unsupported('symbolic set operation')

    def sym_set_op(self, op, a, b):
        (ba, ma), (bb, mb) = self.set_expr(a), self.set_expr(b)
        bases = tuple(sorted({(x[0], x[1].key): x for x in ba + bb}.values(), key=lambda x: (x[0], x[1].key)))
        out = set()
        for m in _it.product((False, True), repeat=len(bases)):
            if not any(m):
                continue
            d = {(x[0], x[1].key): t for x, t in zip(bases, m)}
            x, y = tuple(d[q[0], q[1].key] for q in ba) in ma, tuple(d[q[0], q[1].key] for q in bb) in mb
            r = {ast.BitAnd: x and y, ast.Sub: x and not y, ast.BitOr: x or y, ast.BitXor: x != y}.get(type(op))
            if r is None:
                raise Unsupported('set operation')
            if r:
                out.add(m)
        r = PySet((), sym=())
        r.expr = (bases, frozenset(out))
        return r

    def set_member(self, expr, x):
        bases, ms = expr
        out = T.FALSE
        ins = [base_member(b, x) for b in bases]
        for m in ms:
            out = T.bor(out, T.band(*[i if t else T.bnot(i) for i, t in zip(ins, m)]))
        return out

    def set_family(self, expr):
        """the elements of the set in an arbitrary order"""
        bases, ms = expr
        if not ms:
            return ()
        key = '&'.join(f'{b[0]}<{b[1].key}' for b in bases) + ':' + ','.join(sorted(''.join('1' if t else '0' for t in m) for m in ms))
        card, en, rank = 'card ' + key, 'enum ' + key, 'rank ' + key
        K = to_int(T.app(card, T.ZERO))

        def enum_ax(a):
            i, x = a.args[1], to_int(a.poly())
            return [T.bor(T.lt(i, T.ZERO), T.le(K, i), T.band(self.set_member(expr, x), T.eq(to_int(T.app(rank, x)), i)))]

        def rank_ax(a):
            x, i = a.args[1], to_int(a.poly())
            return [T.bor(T.bnot(self.set_member(expr, x)), T.band(T.ge0(i), T.lt(i, K), T.eq(to_int(T.app(en, i)), x)))]
        S.AXIOMS[card] = lambda a: [T.ge0(to_int(a.poly()))]
        S.AXIOMS[en], S.AXIOMS[rank] = enum_ax, rank_ax
        from . import loops
        loops.INVERSE[en] = rank
        sg = SegMap(K, lambda i: num(to_int(T.app(en, to_int(i)))))
        return (sg,)

    def b_int_(self, args, kw):
        x = args[0] if args else 0
        if isinstance(x, str):
            return int(x)
        p = T.as_scalar(pv(x))
        if isinstance(x, B):
            return num(to_int(p))
        if p.is_int() or p.pt == 'int':
            return num(to_int(p))
        c = p.const_value()
        if c is not None and c.im == 0:
            return int(c.re)
        raise Unsupported('int() of a real value')

    def b_len(self, args, kw):
        v = args[0]
        if isinstance(v, str):
            return len(v)
        if isinstance(v, SymStr) and v.dom:
            for n in sorted({len(w) for w in v.dom}):
                if self.I.decide(T.bor(*[T.eq(v.code, V.str_code(w)) for w in v.dom if len(w) == n])):
                    return n
            raise PathDead()
        if isinstance(v, Inst):
            c, f = v.cls.find('__len__')
            if f is not None:
                return self.I.call(BoundV(f, v), [], {})
        if isinstance(v, PyDict):
            n = T.ZERO
            for e in v.ents:
                if isinstance(e, DPre):
                    raise Unsupported('len of growing dict')
                n = T.add_raw(n, e.cnt if e.cnt is not None else T.ONE)
            return num(to_int(n))
        if isinstance(v, DictView):
            return self.b_len([v.d], {})
        if isinstance(v, PySet):
            if v.sym is None:
                return len(V.plain(v))
            if getattr(v, 'expr', None) is not None:
                return num(V.seqlen(self.set_family(v.expr)))
            if self.distinct(v.sym):
                return num(V.seqlen(v.sym))
            if len(v.sym) == 1 and isinstance(v.sym[0], SegMap):
                nm, i = T.newvar('i')
                body = to_int(pv(v.sym[0].fn(to_int(i))))
                for f in T.REINDEX:
                    body = f(v.sym[0].cnt, nm, body)
                bn, bb = T.close([nm], to_int(body))
                return num(to_int(T.mk('ndistinct', v.sym[0].cnt, bn, bb, typ='int').poly()))
            from .loops import SegFlat
            if len(v.sym) == 1 and isinstance(v.sym[0], SegFlat):
                nm, i = T.newvar('i')
                blk = v.sym[0].segsfn(to_int(i))
                if all(isinstance(s, Seg1) and is_num(s.v) for s in blk):
                    bn, bb = T.close([nm], tuple(to_int(pv(s.v)) for s in blk))
                    return num(to_int(T.mk('ndistinct', v.sym[0].cnt, bn, bb, typ='int').poly()))
            raise Unsupported('size of symbolic set')
        if isinstance(v, Arr):
            if v.val.shape:
                return num(v.val.shape[0])
        if isinstance(v, SymObj) and 'len' in v.attrs:
            return v.attrs['len']
        return num(V.seqlen(self.segs(v)))

    def distinct(self, segs):
        """provably pairwise distinct elements"""
        segs = [s for s in segs if not self.I.prove(T.eq0(s.n()))]
        ok = True
        for a in range(len(segs)):
            s = segs[a]
            if isinstance(s, SegMap):
                i_n, i = T.newvar('i')
                k_n, k = T.newvar('k')
                ne = self.key_eq(s.fn(to_int(i)), s.fn(to_int(k)))
                g = T.bnot(to_b(ne))
                if not S.prove(g, self.I.facts + [T.ge0(i), T.lt(i, k), T.lt(k, s.cnt)]):
                    return False
            elif not isinstance(s, Seg1):
                return False
            for b in range(a + 1, len(segs)):
                r = segs[b]
                fs = []
                x, fx = self._generic(s)
                y, fy = self._generic(r)
                if x is None or y is None:
                    return False
                if not S.prove(T.bnot(to_b(self.key_eq(x, y))), self.I.facts + fx + fy):
                    return False
        return ok

    def _generic(self, s):
        if isinstance(s, Seg1):
            return s.v, []
        if isinstance(s, SegMap):
            nm, i = T.newvar('i')
            return s.fn(to_int(i)), [T.ge0(i), T.lt(i, s.cnt)]
        return None, []

    def b_range(self, args, kw):
        ps = [to_int(pv(a)) for a in args]
        for a in args:
            if not (isinstance(a, int) or (isinstance(a, Poly) and a.is_int())):
                if isinstance(a, Poly) and a.pt not in ('int', 'bool'):
                    raise RaiseSig('TypeError', 'range of non-integer')
        if len(ps) == 1:
            lo, hi, st = T.ZERO, ps[0], T.ONE
        elif len(ps) == 2:
            lo, hi, st = ps[0], ps[1], T.ONE
        else:
            lo, hi, st = ps
        k = st.int_value()
        if k is None or k == 0:
            raise Unsupported('range step')
        a, b = lo.int_value(), hi.int_value()
        if a is not None and b is not None and len(range(a, b, k)) <= 4096:
            return SymSeq([Seg1(i) for i in range(a, b, k)], 'range')
        if k == 1:
            cnt = T.sub(hi, lo)
            if not self.I.prove(T.ge0(cnt)):
                cnt = T.ite(T.ge0(cnt), cnt, T.ZERO)
        elif k > 1:
            d = T.sub(hi, lo)
            q = T.fdiv(T.add(d, T.const(k - 1)), T.const(k))
            cnt = q if self.I.prove(T.ge0(q)) else T.ite(T.ge0(d), q, T.ZERO)
        else:
            d = T.sub(lo, hi)
            q = T.fdiv(T.add(d, T.const(-k - 1)), T.const(-k))
            cnt = q if self.I.prove(T.ge0(q)) else T.ite(T.ge0(d), q, T.ZERO)
        return SymSeq([SegMap(to_int(cnt), lambda i: num(to_int(T.add(lo, T.smul(st, i)))), True)], 'range')

    def b_enumerate(self, args, kw):
        start = pv(kw.get('start', args[1] if len(args) > 1 else 0))
        off = start
        out = []
        for s in self.segs(args[0]):
            if isinstance(s, Seg1):
                out.append(Seg1((num(to_int(off)), s.v)))
                off = to_int(T.add(off, T.ONE))
            elif isinstance(s, SegMap):
                out.append(SegMap(s.cnt, lambda i, s=s, off=off: (num(to_int(T.add(off, i))), s.fn(i)), True))
                off = to_int(T.add(off, s.cnt))
            else:
                raise Unsupported('enumerate of growing list')
        return SymSeq(out, 'gen')

    def b_zip(self, args, kw):
        ss = [list(self.segs(a)) for a in args]
        if not ss:
            return SymSeq([])
        # both elementwise prefix, then aligned families
        out = []
        pos = [0] * len(ss)
        off = [T.ZERO] * len(ss)       # offset into the current segment
        while True:
            cur = []
            for k in range(len(ss)):
                while pos[k] < len(ss[k]):
                    s = ss[k][pos[k]]
                    if flat(s):
                        break
                    rem = T.sub(s.n(), off[k])
                    if self.I.prove(T.le(rem, T.ZERO)):
                        pos[k] += 1
                        off[k] = T.ZERO
                    else:
                        break
                if pos[k] >= len(ss[k]):
                    return SymSeq(out, 'gen')
                cur.append(ss[k][pos[k]])
            if any(flat(s) for s in cur):
                out.append(self.zip_flat(cur))
                pos = [k + 1 for k in pos]
                continue
            rems = [to_int(T.sub(s.n(), o)) for s, o in zip(cur, off)]
            if any(isinstance(s, Seg1) for s in cur):
                # need every other segment to be provably non-empty here
                vals = []
                for s, o, r in zip(cur, off, rems):
                    if isinstance(s, Seg1):
                        vals.append(s.v)
                    else:
                        if not isinstance(s, SegMap):
                            raise Unsupported('zip')
                        if not self.I.prove(T.le(T.ONE, r)):
                            if not self.I.decide(T.le(T.ONE, r)):
                                return SymSeq(out, 'gen') if pos == [len(x) - 1 for x in ss] else self._zip_fail()
                        vals.append(s.fn(o))
                out.append(Seg1(tuple(vals)))
                step = T.ONE
            else:
                if not all(isinstance(s, SegMap) for s in cur):
                    raise Unsupported('zip of growing lists')
                step = None
                for c in rems:
                    if all(self.I.prove(T.le(c, r)) for r in rems):
                        step = c
                        break
                if step is None:
                    # fork on the order
                    step = rems[0]
                    for r in rems[1:]:
                        if not self.I.decide(T.le(step, r)):
                            step = r
                fns = [(s.fn, o) for s, o in zip(cur, off)]
                out.append(SegMap(to_int(step), lambda i, fns=fns: tuple(f(to_int(T.add(o, i))) for f, o in fns), True))
            for k in range(len(ss)):
                off[k] = to_int(T.add(off[k], step))

    def zip_flat(self, cur):
        """concatenations of the same form, element by element"""
        from .loops import SegFlat
        if not all(isinstance(s, SegFlat) and s.cnt.key == cur[0].cnt.key for s in cur):
            raise Unsupported('zip of growing lists')

        def inner(i):
            parts = [s.segsfn(i) for s in cur]
            out = []
            for row in zip(*parts):
                if len({len(x) for x in parts}) != 1:
                    raise Unsupported('zip of growing lists')
                if all(isinstance(x, SegFlat) for x in row):
                    out.append(self.zip_flat(row))
                elif all(isinstance(x, Seg1) for x in row):
                    out.append(Seg1(tuple(x.v for x in row)))
                elif all(isinstance(x, SegMap) for x in row) and len({x.cnt.key for x in row}) == 1:
                    out.append(SegMap(row[0].cnt, lambda j, row=row: tuple(x.fn(j) for x in row)))
                else:
                    raise Unsupported('zip of growing lists')
            return out
        inner(to_int(T.newvar('i')[1]))
        return SegFlat(cur[0].cnt, inner)

    def _zip_fail(self):
        raise Unsupported('zip of lists of unrelated lengths')

    def b_reversed(self, args, kw):
        out = []
        for s in reversed(list(self.segs(args[0]))):
            if isinstance(s, Seg1):
                out.append(s)
            elif isinstance(s, SegMap):
                out.append(SegMap(s.cnt, lambda i, s=s: s.fn(to_int(T.sub(T.sub(s.cnt, T.ONE), i))), s.inj))
            else:
                raise Unsupported('reversed')
        return SymSeq(out, 'gen')

    def b_sum(self, args, kw):
        acc = args[1] if len(args) > 1 else kw.get('start', 0)
        return self.fold_add(acc, self.segs(args[0]))

    def fold_add(self, acc, segs):
        from . import loops
        for s in segs:
            if isinstance(s, Seg1):
                acc = self.binop(ast.Add(), acc, s.v)
            elif isinstance(s, SegMap):
                nm, j = T.newvar('k')
                e = s.fn(to_int(j))
                if not (is_num(e) or isinstance(e, Arr)):
                    raise Unsupported('sum of objects')
                p = pv(e)
                t = T.bigsum(s.cnt, nm, p)
                if p.shape == ():
                    t.pt = p.pt if p.pt != 'bool' else 'int'
                    a = pv(acc)
                    acc = num(T.add(a, t)) if a.shape == () else wrap(T.add(a, t))
                else:
                    a = pv(acc)
                    if not (a.is_zero() and a.shape == ()):
                        t = T.add(a, t)
                    acc = Arr(t)
            elif isinstance(s, loops.SegFlat):
                nm, j = T.newvar('k')
                inner = self.fold_add(0, s.segsfn(to_int(j)))
                t = T.bigsum(s.cnt, nm, pv(inner))
                acc = num(T.add(pv(acc), t))
            else:
                raise Unsupported('sum over growing list')
        return acc

    def b_reduce(self, args, kw):
        sg = list(self.segs(args[1]))
        if not elementwise(sg):
            raise Unsupported('reduce over a symbolic sequence')
        vals = [s.v for s in sg]
        acc = args[2] if len(args) > 2 else vals.pop(0)
        for v in vals:
            acc = self.I.call(args[0], [acc, v], {})
        return acc

    def b_abs(self, args, kw):
        v = args[0]
        p = pv(v)
        r = T.absval(p)
        if p.shape == ():
            r.pt = 'int' if p.pt in ('int', 'bool') else ('float' if p.pt else None)
        return wrap(r)

    def b_all(self, args, kw):
        return self.quant(args[0], True)

    def b_any(self, args, kw):
        return self.quant(args[0], False)

    def quant(self, v, isall):
        from . import loops
        acc = T.TRUE
        for s in self.segs(v):
            if isinstance(s, Seg1):
                t = to_b(self.truth(s.v))
                acc = T.band(acc, t if isall else T.bnot(t))
            elif isinstance(s, SegMap):
                nm, j = T.newvar('k')
                t = to_b(self.truth(s.fn(to_int(j))))
                acc = T.band(acc, T.forall(s.cnt, nm, t if isall else T.bnot(t)))
            elif isinstance(s, loops.SegFlat):
                nm, j = T.newvar('k')
                t = to_b(self.quant(SymSeq(s.segsfn(to_int(j))), isall))
                t = t if isall else T.bnot(t)
                acc = T.band(acc, T.forall(s.cnt, nm, t))
            else:
                raise Unsupported('all/any over growing list')
        return from_b(acc if isall else T.bnot(acc))

    def b_max(self, args, kw):
        return self.extremum(args, kw, 1)

    def b_min(self, args, kw):
        return self.extremum(args, kw, -1)

    def extremum(self, args, kw, sign):
        key = kw.get('key')
        if len(args) == 1:
            src = args[0]
            segs = list(self.segs(src))
        else:
            src = None
            segs = [Seg1(a) for a in args]
        if elementwise(segs) and segs:
            vals = [s.v for s in segs]
            ks = [self.I.call(key, [v], {}) if key else v for v in vals]
            best, bk = vals[0], ks[0]
            for v, k in zip(vals[1:], ks[1:]):
                c = self.compare(ast.Gt() if sign > 0 else ast.Lt(), k, bk)
                t = to_b(self.truth(c))
                if t.kind == 'true' or (t.kind != 'false' and self.I.prove(t)):
                    best, bk = v, k
                elif t.kind == 'false' or self.I.prove(T.bnot(t)):
                    pass
                elif key is None:
                    best = bk = vmerge(t, v, best)
                elif len(vals) > 4:
                    return self.first_extremum(vals, ks, sign)
                elif self.I.decide(t):
                    best, bk = v, k
            return best
        if not segs:
            raise RaiseSig('ValueError', 'max of empty')
        if key is None:
            # numeric maximum over families: opaque bound with axioms
            parts = []
            for s in segs:
                if isinstance(s, Seg1):
                    parts.append((T.ONE, ('k',), pv(s.v)))
                elif isinstance(s, SegMap):
                    nm, j = T.newvar('k')
                    e = s.fn(to_int(j))
                    p = pv(e)
                    bn, bb = T.close([nm], p)
                    parts.append((s.cnt, bn, bb))
                else:
                    raise Unsupported('max')
            isint = all(p[2].is_int() for p in parts)
            which, ty = 'max' if sign > 0 else 'min', 'int' if isint else 'real'
            if any(not p[2].is_real() for p in parts):
                raise Unsupported('extremum of complex numbers')
            if not self.I.prove(T.lt(T.ZERO, V.seqlen(segs))):
                raise Unsupported('extremum of a possibly empty sequence')
            if len(parts) == 1 and parts[0][1] != ('k',):
                a = T.mk('maxof', which, *parts[0], typ=ty).poly()
            else:
                a = T.mk('maxofs', which, tuple(T.mk('lam', c, ('none',) if bn == ('k',) else bn, bb, typ=ty) for c, bn, bb in parts), typ=ty).poly()
            a.pt = 'int' if isint else 'float'
            return num(a)
        return self.np.argext(src, segs, key, sign)

    def first_extremum(self, vals, ks, sign):
        """one of many (tuples of) strings: the first extremum, as Python has it"""
        ps = [to_poly(k) for k in ks]
        if any(p.pt == 'complex' for p in ps):
            raise RaiseSig('TypeError', 'order of complex numbers')
        ge = lambda x, y: T.ge0(T.sub(x, y) if sign > 0 else T.sub(y, x))
        # the element is described by the strings and numbers in it and by what holds of them
        from .loops import loopvars
        if any(loopvars(p.fv) for p in ps):
            raise Unsupported('extremum of many elements in a loop')
        rows = [leaves(v) for v in vals]
        kinds = [[isinstance(x, str) for x in r] for r in rows]
        if any(k != kinds[0] for k in kinds) or not any(kinds[0]) or any(shape_of(v) != shape_of(vals[0]) for v in vals):
            raise Unsupported('extremum of many elements')
        if any(not isinstance(x, str) and (loopvars(to_poly(x).fv) or not to_poly(x).is_real()) for r in rows for x in r):
            raise Unsupported('extremum of many elements')
        key = (sign, tuple(tuple(x if isinstance(x, str) else to_poly(x).key for x in r) for r in rows), tuple(p.key for p in ps))
        if key in EXTREMA:
            pick, fact = EXTREMA[key]
            self.I.facts.append(fact)
            return pick
        new = [SymStr(T.newvar('pick')[1], tuple(sorted({r[c] for r in rows}))) if st else num(Poly(T.newvar('pick', 'real')[1].terms, (), to_poly(rows[0][c]).pt)) for c, st in enumerate(kinds[0])]
        eq = lambda x, y: T.eq(x.code, V.str_code(y)) if isinstance(y, str) else T.eq(to_poly(x), to_poly(y))
        strs = [c for c, st in enumerate(kinds[0]) if st]
        cases = []
        for t, r in enumerate(rows):
            c = T.band(*[eq(x, y) for x, y in zip(new, r)])
            for s in range(len(rows)):
                if s != t:
                    c = T.band(c, ge(ps[t], ps[s]) if s > t else T.bnot(ge(ps[s], ps[t])))
            cases.append(c)
        pick = refill(vals[0], iter(new))
        fact = T.bor(*cases)
        self.I.facts.append(fact)
        EXTREMA[key] = pick, fact
        PICKS[new[strs[0]].code.key] = (sign, [(tuple(r[c] for c in strs), p) for r, p in zip(rows, ps)], fact, T.bor(*[T.band(*[eq(new[c], r[c]) for c in strs]) for r in rows]))
        return pick

    def b_sorted(self, args, kw):
        sg = list(self.segs(args[0]))
        key = kw.get('key')
        rev = kw.get('reverse', False)
        if elementwise(sg):
            vals = [s.v for s in sg]
            ks = [self.I.call(key, [v], {}) if key else v for v in vals]
            # insertion sort with decisions (stable)
            out = []
            for v, k in zip(vals, ks):
                i = len(out)
                while i > 0:
                    c = self.compare(ast.Gt() if rev else ast.Lt(), k, out[i - 1][1])
                    if self.I.decide(to_b(self.truth(c))):
                        i -= 1
                    else:
                        break
                out.insert(i, (v, k))
            return PyList([Seg1(v) for v, _ in out])
        if len(sg) == 1 and isinstance(sg[0], SegMap) and rev is False:
            return self.sorted_family(sg[0], key)
        raise Unsupported('sorted of symbolic list')

    def sorted_family(self, s, key):
        """a permutation of the family with non-decreasing integer keys"""
        from . import loops
        nm, i = T.newvar('i')
        v = s.fn(to_int(i))
        kv = self.I.call(key, [v], {}) if key else v
        if not is_num(kv) or not pv(kv).is_int():
            raise Unsupported('sorted of symbolic list')
        kv = to_int(pv(kv))
        if loops.loopvars((kv.fv | s.cnt.fv) - {nm}):
            raise Unsupported('sorted of a list that varies in a loop')
        ident = T.mk('lam', s.cnt, *T.close([nm], kv)).key
        pn, qn = 'perm ' + ident, 'perminv ' + ident
        K = s.cnt
        at = lambda j: kv.subst({nm: j})

        def perm_ax(a):
            i, p = a.args[1], to_int(a.poly())
            return [T.bor(T.lt(i, T.ZERO), T.le(K, i), T.band(T.ge0(p), T.lt(p, K), T.eq(to_int(T.app(qn, p)), i))), order]

        def perminv_ax(a):
            p, i = a.args[1], to_int(a.poly())
            return [T.bor(T.lt(p, T.ZERO), T.le(K, p), T.band(T.ge0(i), T.lt(i, K), T.eq(to_int(T.app(pn, i)), p)))]
        S.AXIOMS[pn], S.AXIOMS[qn] = perm_ax, perminv_ax
        loops.INVERSE[pn] = qn
        PERMS[pn] = K
        an, a = T.newvar('a')
        bn, b = T.newvar('b')
        a, b = to_int(a), to_int(b)
        P = lambda j: to_int(T.app(pn, to_int(j)))
        order = T.forall(K, an, T.forall(K, bn, T.bor(T.lt(b, a), T.le(at(P(a)), at(P(b))))))
        return PyList([SegMap(K, lambda j: s.fn(P(j)))])

    def b_hasattr(self, args, kw):
        o, a = args
        if isinstance(o, SymObj):
            return a in o.attrs
        if o is None or isinstance(o, (int, str, Poly, tuple)):
            return False
        if isinstance(o, Inst):
            return a in o.s or o.cls.find(a)[0] is not None
        raise Unsupported('hasattr')

    def b_getattr(self, args, kw):
        if len(args) == 2 and isinstance(args[1], str):
            return self.I.attr(args[0], args[1])
        raise Unsupported('getattr')

    def b_type(self, args, kw):
        v = args[0]
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, (bool, B)):
            return TypeV('bool')
        if isinstance(v, int):
            return TypeV('int')
        if isinstance(v, str):
            return TypeV('str')
        if isinstance(v, Poly) and v.pt:
            return TypeV(v.pt)
        return TypeV('?' + type(v).__name__)

    def b_id(self, args, kw):
        raise Unsupported('id')

    def b_repr(self, args, kw):
        return OpaqueStr(['repr', args[0]])

    def b_hash(self, args, kw):
        v = args[0]
        if not isinstance(v, (str, OpaqueStr)):
            raise Unsupported('hash')
        return SymObj('hash', {'of': v}, key=('hash', id(v)))

    def b_iter(self, args, kw):
        v = args[0]
        if isinstance(v, IterV):
            return v
        return IterV(v, False)

    def b_next(self, args, kw):
        it = args[0]
        if isinstance(it, SymSeq) and it.kind == 'gen':
            return self.seg_get(it.segs, T.ZERO)
        if not isinstance(it, IterV):
            raise Unsupported('next')
        pos = it.s['pos']
        n = V.seqlen(self.segs(it.seq))
        if it.cyc:
            if not self.I.decide(T.le(T.ONE, n)):
                raise RaiseSig('StopIteration', 'next of empty cycle')
            idx = self.mod(pos, n)
        else:
            idx = pos
            if not self.I.decide(T.lt(pos, n)):
                raise RaiseSig('StopIteration', 'next')
        v = self.seg_get(self.segs(it.seq), idx)
        self.I.set(it, 'pos', to_int(T.add(pos, T.ONE)))
        return v

    def b_map(self, args, kw):
        out = []
        for s in self.segs(args[1]):
            if len(args) > 2:
                raise Unsupported('map of several')
            if isinstance(s, Seg1):
                out.append(Seg1(self.I.call(args[0], [s.v], {})))
            elif isinstance(s, SegMap):
                out.append(SegMap(s.cnt, lambda i, s=s: self.I.call(args[0], [s.fn(i)], {})))
            else:
                raise Unsupported('map')
        return SymSeq(out, 'gen')

    def b_filter(self, args, kw):
        out = []
        for s in self.segs(args[1]):
            if not isinstance(s, Seg1):
                raise Unsupported('filter')
            if self.I.decide(to_b(self.truth(self.I.call(args[0], [s.v], {})))):
                out.append(s)
        return SymSeq(out, 'gen')

    def b_print(self, args, kw):
        return None

    def b_round(self, args, kw):
        raise Unsupported('round')

    def b_divmod(self, args, kw):
        a, b = args
        return (self.binop(ast.FloorDiv(), a, b), self.binop(ast.Mod(), a, b))

    def b_pow(self, args, kw):
        return self.binop(ast.Pow(), args[0], args[1])

    def b_isinstance(self, args, kw):
        v, c = args
        if isinstance(c, tuple):
            r = [self.b_isinstance([v, x], {}) for x in c]
            if any(x is True for x in r):
                return True
            return from_b(T.bor(*[to_b(x) for x in r]))
        if isinstance(v, SymObj) and v.isinst and callable(v.isinst):
            return v.isinst(c)
        if isinstance(c, ClassV):
            if isinstance(v, Inst):
                return c in v.cls.mro()
            if isinstance(v, SymObj):
                if v.isinst and (c.name in v.isinst or '*' in v.isinst):
                    return True
                return False
            return False
        if isinstance(c, TypeV):
            n = c.name
            if isinstance(v, (bool, B)):
                return n in ('bool', 'int', 'object')
            if isinstance(v, int):
                return n in ('int', 'object')
            if isinstance(v, str):
                return n in ('str', 'object')
            if isinstance(v, OpaqueStr):
                return n in ('str', 'object')
            if isinstance(v, Poly):
                if v.pt is None:
                    raise Unsupported('type of number unknown')
                ok = {'int': ('int',), 'bool': ('bool', 'int'), 'float': ('float',), 'complex': ('complex',),
                      'npfloat': ('float', 'np.floating', 'np.number'), 'npint': ('np.integer', 'np.number')}[v.pt]
                return n in ok or n == 'object'
            if isinstance(v, Vec) or isinstance(v, Arr):
                return n in ('ndarray', 'object')
            if isinstance(v, PyList):
                return n in ('list', 'object')
            if isinstance(v, tuple):
                return n in ('tuple', 'object')
            if isinstance(v, SymSeq):
                if v.kind in ('tuple', 'list'):
                    return n == v.kind
            if isinstance(v, PyDict):
                return n in ('dict', 'object')
            if isinstance(v, PySet):
                return n in ('set', 'object')
            if v is None:
                return n == 'object' or n == 'NoneType'
            if isinstance(v, (Inst, SymObj, FuncV, TypeV)):
                if isinstance(v, SymObj) and n in v.isinst:
                    return True
                return n == 'object'
        raise Unsupported(f'isinstance({v!r}, {c!r})')

    # ------------------------------------------------------------ itertools / copy
    def it_product(self, args, kw):
        rep = kw.get('repeat', 1)
        pools = []
        for a in args:
            sg = list(self.segs(a))
            if not elementwise(sg):
                if len(args) == 2 and rep == 1:
                    return self._product2(args)
                raise Unsupported('product of symbolic lists')
            pools.append([s.v for s in sg])
        if isinstance(rep, int):
            tot = 1
            for _ in range(rep):
                for p in pools:
                    tot *= len(p)
            if tot > 5000:
                raise Unsupported('large product')
            return SymSeq([Seg1(t) for t in _it.product(*pools, repeat=rep)], 'gen')
        if len(pools) == 1:
            r = to_int(pv(rep))
            vals = pools[0]
            d = len(vals)
            if vals == list(range(d)):
                cnt = T.mk('powc', T.const(d), r, typ='int').poly()

                def elem(k):
                    return SymSeq([SegMap(r, lambda i: num(T.app('digit', T.const(d), r, k, i)))])
                return SymSeq([SegMap(to_int(cnt), elem, True)], 'gen')
        raise Unsupported('product')

    def _product2(self, args):
        from . import loops
        A, Bs = list(self.segs(args[0])), list(self.segs(args[1]))
        out = []
        for s in A:
            if isinstance(s, Seg1):
                for r in Bs:
                    if isinstance(r, Seg1):
                        out.append(Seg1((s.v, r.v)))
                    elif isinstance(r, SegMap):
                        out.append(SegMap(r.cnt, lambda i, r=r, s=s: (s.v, r.fn(i))))
                    else:
                        raise Unsupported('product')
            elif isinstance(s, SegMap):
                def inner(i, s=s):
                    o = []
                    for r in Bs:
                        if isinstance(r, Seg1):
                            o.append(Seg1((s.fn(i), r.v)))
                        elif isinstance(r, SegMap):
                            o.append(SegMap(r.cnt, lambda k, r=r: (s.fn(i), r.fn(k))))
                        else:
                            raise Unsupported('product')
                    return o
                out.append(loops.SegFlat(s.cnt, inner))
            else:
                raise Unsupported('product')
        return SymSeq(out, 'gen')

    def it_combinations(self, args, kw):
        r = kw.get('r', args[1] if len(args) > 1 else None)
        r = int(r) if isinstance(r, int) else to_int(pv(r)).int_value()
        sg = list(self.segs(args[0]))
        if elementwise(sg):
            return SymSeq([Seg1(t) for t in _it.combinations([s.v for s in sg], r)], 'gen')
        if r in (2, 3):
            segs = [s for s in sg if not self.I.prove(T.eq0(s.n()))]
            if len(segs) == 1 and isinstance(segs[0], SegMap):
                s = segs[0]
                n = s.cnt
                cnt = to_int(T.app(f'ncomb{r}', n))

                def elem(k):
                    return tuple(s.fn(to_int(T.app(f'comb{r}_{t}', n, k))) for t in range(r))
                return SymSeq([SegMap(cnt, elem, s.inj)], 'gen')
        raise Unsupported('combinations')

    def it_permutations(self, args, kw):
        sg = list(self.segs(args[0]))
        if elementwise(sg):
            r = args[1] if len(args) > 1 else None
            return SymSeq([Seg1(t) for t in _it.permutations([s.v for s in sg], r)], 'gen')
        raise Unsupported('permutations')

    def it_cycle(self, args, kw):
        return IterV(args[0], True)

    def it_chain(self, args, kw):
        out = []
        for a in args:
            out += list(self.segs(a))
        return SymSeq(out, 'gen')

    def it_islice(self, args, kw):
        return SymSeq(self.slice_segs(self.segs(args[0]), slice(*args[1:]) if len(args) > 2 else slice(None, args[1], None)), 'gen')

    def it_repeat(self, args, kw):
        if len(args) == 2:
            v = args[0]
            return SymSeq([SegMap(to_int(pv(args[1])), lambda i: v)], 'gen')
        raise Unsupported('repeat')

    def copy_copy(self, args, kw):
        v = args[0]
        if isinstance(v, Vec):
            return Vec(v.segs)
        if isinstance(v, PyList):
            return PyList(v.segs)
        if isinstance(v, PyDict):
            return PyDict(v.ents)
        if isinstance(v, Arr):
            return Arr(v.val)
        if isinstance(v, Inst):
            if v.cls.find('__copy__')[1] is not None:
                raise Unsupported('__copy__')
            n = Inst(v.cls)
            n.s = dict(v.s)
            return n
        if isinstance(v, (tuple, int, str, Poly, B, SymSeq)) or v is None:
            return v
        if isinstance(v, PySet):
            return PySet(v.s['items'], v.sym)
        raise Unsupported('copy')

    def copy_deepcopy(self, args, kw):
        memo = {}

        def go(v):
            if id(v) in memo:
                return memo[id(v)]
            if isinstance(v, PyList):
                segs = []
                for s in v.segs:
                    if not isinstance(s, Seg1):
                        nm, i = T.newvar('i')
                        if not isinstance(s, SegMap) or not isinstance(s.fn(to_int(i)), (int, Poly, str, tuple, B)):
                            raise Unsupported('deepcopy')
                        segs.append(s)
                    else:
                        segs.append(Seg1(go(s.v)))
                r = type(v)(segs)
            elif isinstance(v, Inst):
                r = Inst(v.cls)
                memo[id(v)] = r
                r.s = {k: go(x) for k, x in v.s.items()}
            elif isinstance(v, PyDict):
                r = PyDict([DEnt(e.cnt, e.k, go(e.v), e.grp) if e.cnt is None else e for e in v.ents])
            elif isinstance(v, (Arr, PySet)):
                r = self.copy_copy([v], {})
            elif isinstance(v, tuple):
                r = tuple(go(x) for x in v)
            elif isinstance(v, (int, str, Poly, B, SymSeq)) or v is None:
                r = v
            else:
                raise Unsupported('deepcopy')
            memo[id(v)] = r
            return r
        return go(args[0])

    # ------------------------------------------------------------ sequences
    def segs(self, v):
        if isinstance(v, tuple):
            return tuple(Seg1(x) for x in v)
        if isinstance(v, (PyList, SymSeq)):
            return v.segs
        if isinstance(v, str):
            return tuple(Seg1(c) for c in v)
        if isinstance(v, PyDict):
            return self.dict_segs(v, 'keys')
        if isinstance(v, DictView):
            return self.dict_segs(v.d, v.what)
        if isinstance(v, PySet):
            if v.sym is not None:
                return self.set_family(self.set_expr(v))
            return tuple(Seg1(x) for x in V.plain(v))
        if isinstance(v, IterV) and not v.cyc:
            if v.s['pos'].int_value() == 0:
                sg = self.segs(v.seq)
                self.I.set(v, 'pos', V.seqlen(sg))
                return sg
        if isinstance(v, SymObj) and 'segs' in v.attrs:
            r = v.attrs['segs']
            return tuple(r() if callable(r) else r)
        if isinstance(v, Inst):
            c, f = v.cls.find('__iter__')
            if f is not None:
                return self.segs(self.I.call(BoundV(f, v), [], {}))
            c, f = v.cls.find('__getitem__')
            if f is not None and 'monomial' in v.s:
                return self.segs(v.s['monomial'])
            if f is not None and 'pauli_sum' in v.s:
                return self.segs(v.s['pauli_sum'])
        if isinstance(v, Arr) and v.val.shape:
            return self.np.arr_segs(v)
        if v is None or isinstance(v, (int, Poly, B)):
            raise RaiseSig('TypeError', 'not iterable')
        raise Unsupported(f'iteration over {type(v).__name__} {v!r}')

    def dict_segs(self, d, what):
        from . import loops
        out = []
        ents = list(d.ents)
        while ents:
            e = ents.pop(0)
            if isinstance(e, DPre):
                raise Unsupported('iteration over a growing dict')
            if e.grp is not None:
                # entry i of every family of the group, for i = 0, 1, ..
                g = [e]
                while ents and isinstance(ents[0], DEnt) and ents[0].grp is e.grp:
                    g.append(ents.pop(0))
                if any(x.cnt is None or x.cnt.key != e.cnt.key for x in g) or any(isinstance(x, DEnt) and x.grp is e.grp for x in ents):
                    raise Unsupported('order of the entries of a dictionary')
                if len(g) > 1:
                    f = {'keys': lambda x, i: x.k(i), 'values': lambda x, i: x.v(i), 'items': lambda x, i: (x.k(i), x.v(i))}[what]
                    out.append(loops.SegFlat(e.cnt, lambda i, g=g, f=f: [Seg1(f(x, i)) for x in g]))
                    continue
            if e.cnt is None:
                v = {'keys': e.k, 'values': e.v, 'items': (e.k, e.v)}[what]
                out.append(Seg1(v))
            else:
                f = {'keys': e.k, 'values': e.v, 'items': lambda i, e=e: (e.k(i), e.v(i))}[what]
                out.append(SegMap(e.cnt, f, what != 'values'))
        return tuple(out)

    def seg_get(self, segs, idx):
        I = self.I
        off = T.ZERO
        iv = idx.int_value()
        if iv is not None and iv >= 0:
            # fast path over leading single elements
            k = 0
            for s in segs:
                if isinstance(s, Seg1):
                    if k == iv:
                        return s.v
                    k += 1
                else:
                    break
        for t, s in enumerate(segs):
            n = s.n()
            rel = to_int(T.sub(idx, off))
            last = t == len(segs) - 1
            if isinstance(s, SegPre):
                if I.prove(T.lt(rel, n)):
                    return s.read.read_prefix(I, rel)
                if I.prove(T.le(n, rel)) or (not last and not I.decide(T.lt(rel, n))):
                    off = T.add(off, n)
                    continue
                return s.read.read_prefix(I, rel)
            inside = T.lt(rel, n)
            if I.prove(inside):
                ok = True
            elif I.prove(T.le(n, rel)):
                ok = False
            else:
                ok = I.decide(inside)
            if ok:
                if isinstance(s, Seg1):
                    return s.v
                if isinstance(s, SegMap):
                    if not I.prove(T.ge0(rel)):
                        raise Unsupported('index may be negative')
                    return s.fn(rel)
                raise Unsupported('index into flattened list')
            off = to_int(T.add(off, n))
        raise RaiseSig('IndexError', self.I.where)

    def index(self, segs, i):
        """python indexing with possibly negative index"""
        if not isinstance(i, (int, Poly, B, bool)):
            raise RaiseSig('TypeError', 'list index')
        idx = to_int(pv(i))
        if isinstance(i, Poly) and not i.is_int():
            raise RaiseSig('TypeError', 'list index')
        iv = idx.int_value()
        n = V.seqlen(segs)
        if iv is not None and iv < 0:
            # from the end over single elements
            k = -1
            for s in reversed(segs):
                if isinstance(s, Seg1):
                    if k == iv:
                        return s.v
                    k -= 1
                else:
                    break
            idx = to_int(T.add(n, idx))
            if not self.I.decide(T.ge0(idx)):
                raise RaiseSig('IndexError', self.I.where)
        elif iv is None:
            if not self.I.prove(T.ge0(idx)):
                if not self.I.decide(T.ge0(idx)):
                    idx = to_int(T.add(n, idx))
                    if not self.I.decide(T.ge0(idx)):
                        raise RaiseSig('IndexError', self.I.where)
        return self.seg_get(segs, idx)

    def slice_segs(self, segs, s):
        segs = list(segs)
        f = lambda x: None if x is None else to_int(pv(x))
        lo, hi, st = f(s.start), f(s.stop), f(s.step)
        if st is not None and st.int_value() == -1 and lo is None and hi is None:
            return self.b_reversed([SymSeq(segs)], {}).segs
        if elementwise(segs) and all(x is None or x.int_value() is not None for x in (lo, hi, st)):
            g = lambda x: None if x is None else x.int_value()
            return segs[slice(g(lo), g(hi), g(st))]
        if st is not None and st.int_value() != 1:
            raise Unsupported('slice step')
        n = V.seqlen(segs)

        def norm(x, d):
            if x is None:
                return d
            if not self.I.prove(T.ge0(x)):
                if self.I.prove(T.lt(x, T.ZERO)):
                    x = to_int(T.add(n, x))
                    if not self.I.decide(T.ge0(x)):
                        x = T.ZERO
                else:
                    raise Unsupported('slice sign')
            if not self.I.decide(T.le(x, n)):
                x = n
            return x
        lo = norm(lo, T.ZERO)
        hi = norm(hi, n)
        out = []
        off = T.ZERO
        for sg in segs:
            c = sg.n()
            a, b = to_int(T.sub(lo, off)), to_int(T.sub(hi, off))
            off = to_int(T.add(off, c))
            P = self.I.prove
            if P(T.le(c, a)) or P(T.le(b, T.ZERO)):
                continue
            a0 = T.ZERO if P(T.le(a, T.ZERO)) else (a if P(T.ge0(a)) else None)
            b0 = c if P(T.le(c, b)) else (b if P(T.le(b, c)) else None)
            if a0 is None or b0 is None:
                raise Unsupported('slice bounds')
            if isinstance(sg, Seg1):
                if P(T.lt(a0, b0)):
                    out.append(sg)
                    continue
                raise Unsupported('slice bounds')
            if a0.is_zero() and b0 is c:
                out.append(sg)
                continue
            if not isinstance(sg, SegMap):
                raise Unsupported('slice of growing list')
            m = to_int(T.sub(b0, a0))
            if not P(T.ge0(m)):
                m = to_int(T.ite(T.ge0(m), m, T.ZERO))
            out.append(SegMap(m, lambda i, sg=sg, a0=a0: sg.fn(to_int(T.add(i, a0))), sg.inj))
        return out

    def unpack(self, v, n):
        if isinstance(v, Arr) or isinstance(v, SymObj) or not isinstance(v, tuple):
            sg = list(self.segs(v))
        else:
            sg = [Seg1(x) for x in v]
        if elementwise(sg):
            if len(sg) != n:
                raise RaiseSig('ValueError', 'unpack')
            return [s.v for s in sg]
        ln = V.seqlen(sg)
        if not self.I.decide(T.eq(ln, T.const(n))):
            raise RaiseSig('ValueError', 'unpack')
        return [self.seg_get(sg, T.const(k)) for k in range(n)]

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, i):
        if isinstance(o, (PyList, SymSeq, tuple)):
            if isinstance(o, SymSeq) and o.kind == 'gen':
                raise RaiseSig('TypeError', 'generator not subscriptable')
            if isinstance(o, Vec) and isinstance(i, tuple):
                return self.np.vec_index(o, i)
            sg = self.segs(o)
            if isinstance(i, slice):
                r = self.slice_segs(sg, i)
                if isinstance(o, PyList):
                    return type(o)(r)
                return tuple(s.v for s in r) if elementwise(r) else SymSeq(r)
            return self.index(sg, i)
        if isinstance(o, str):
            if isinstance(i, slice):
                return o[slice(*[None if x is None else int(x) for x in (i.start, i.stop, i.step)])]
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    raise RaiseSig('IndexError', 'str')
            raise Unsupported('string index')
        if isinstance(o, PyDict):
            r = self.dict_get(o, i)
            if r is UNDEF:
                raise RaiseSig('KeyError', self.I.where)
            return r
        if isinstance(o, Arr):
            return self.np.getitem(o, i)
        if isinstance(o, Inst):
            c, f = o.cls.find('__getitem__')
            if f is not None:
                return self.I.call(BoundV(f, o), [i], {})
        if isinstance(o, SymObj) and 'getitem' in o.attrs:
            return o.attrs['getitem'](i)
        if type(o).__name__ == 'Graph':
            from . import libnx
            return libnx.graph_item(self, o, i)
        if isinstance(o, (TypingV, TypeV)):
            return o
        if o is None or isinstance(o, (int, Poly)):
            raise RaiseSig('TypeError', 'not subscriptable')
        raise Unsupported(f'subscript of {type(o).__name__}')

    def setitem(self, o, i, v):
        I = self.I
        if isinstance(o, PyList):
            if isinstance(i, slice):
                raise Unsupported('slice assignment')
            idx = to_int(pv(i))
            segs = list(o.segs)
            iv = idx.int_value()
            n = V.seqlen(segs)
            if iv is not None and iv < 0:
                idx = to_int(T.add(n, idx))
            off = T.ZERO
            for k, s in enumerate(segs):
                c = s.n()
                rel = to_int(T.sub(idx, off))
                if isinstance(s, Seg1):
                    if I.prove(T.eq0(rel)):
                        segs[k] = Seg1(v)
                        I.set(o, 'segs', tuple(segs))
                        return
                    if not I.prove(T.lt(T.ZERO, rel)):
                        raise Unsupported('list store at an unknown index')
                else:
                    if I.prove(T.le(c, rel)):
                        pass
                    elif isinstance(s, SegMap) and I.prove(T.band(T.ge0(rel), T.lt(rel, c))):
                        new = self.store_family(s, rel, v)
                        segs[k] = new
                        I.set(o, 'segs', tuple(segs))
                        return
                    elif isinstance(s, SegPre) and k == len(segs) - 1:
                        return self.scatter_store(o, s, rel, v)
                    else:
                        raise Unsupported('list store at an unknown index')
                off = to_int(T.add(off, c))
            raise RaiseSig('IndexError', self.I.where)
        if isinstance(o, PyDict):
            return self.dict_set(o, i, v)
        if isinstance(o, Arr):
            return self.np.setitem(o, i, v)
        if isinstance(o, SymObj) and 'setitem' in o.attrs:
            return o.attrs['setitem'](i, v)
        raise Unsupported(f'item assignment on {type(o).__name__}')

    def store_family(self, s, rel, v):
        fn = s.fn
        if isinstance(v, (int, Poly)) and not isinstance(v, bool):
            def f(i):
                old = fn(i)
                if not is_num(old):
                    raise Unsupported('mixed store')
                return num(Poly(T.ite(T.eq(i, rel), pv(v), pv(old)).terms, (), pv(v).pt))
            return V.SegStore(s.cnt, f, s, rel, v)
        raise Unsupported('store into a family')

    def scatter_store(self, o, s, rel, v):
        raise Unsupported('store into a growing list')

    def delitem(self, o, i):
        if isinstance(o, PyDict):
            ents = list(o.ents)
            for k, e in enumerate(ents):
                if isinstance(e, DEnt) and e.cnt is None and self.key_eq(e.k, i) is True:
                    del ents[k]
                    self.I.set(o, 'ents', tuple(ents))
                    return
        raise Unsupported('del item')

    # ------------------------------------------------------------ dicts
    def key_eq(self, a, b):
        """equality of keys / plain values: bool or B"""
        if a is b:
            return True
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            x, y = to_b(a), to_b(b)
            return from_b(T.bor(T.band(x, y), T.band(T.bnot(x), T.bnot(y))))
        if is_num(a) and is_num(b):
            x, y = pv(a), pv(b)
            return from_b(T.eq(x, y))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = T.TRUE
            for x, y in zip(a, b):
                e = self.key_eq(x, y)
                if e is False:
                    return False
                r = T.band(r, to_b(e))
            return from_b(r)
        if isinstance(a, (tuple, SymSeq)) and isinstance(b, (tuple, SymSeq)):
            return self.seq_eq(a, b)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            c = T.eq(strcode(a), strcode(b))
            if self.I.prove(c):
                return True
            if self.I.prove(T.bnot(c)):
                return False
            return c
        if isinstance(a, V.JoinStr) and isinstance(b, V.JoinStr):
            wa, wb = self.word_index(a), self.word_index(b)
            if wa is not None and wb is not None and wa[:2] == wb[:2] and self.I.prove(T.eq(wa[2], wb[2])):
                return from_b(T.eq(wa[3], wb[3]))
            raise Unsupported('equality of joined strings')
        if a is None or b is None:
            return a is b
        if isinstance(a, SymObj) and isinstance(b, SymObj) and 'eq' not in a.attrs and a.ident is not None and b.ident is not None and a.kind == b.kind:
            if V._k(a.ident) == V._k(b.ident):
                return True
            raise Unsupported('identity of symbolic objects')
        if isinstance(a, SymObj) and 'eq' in a.attrs:
            return a.attrs['eq'](b)
        if isinstance(b, SymObj) and 'eq' in b.attrs:
            return b.attrs['eq'](a)
        if isinstance(a, str) != isinstance(b, str) and not isinstance(a, (OpaqueStr, SymObj)) and not isinstance(b, (OpaqueStr, SymObj)):
            return False
        if (isinstance(a, (tuple, SymSeq)) and is_num(b)) or (is_num(a) and isinstance(b, (tuple, SymSeq))):
            return False
        if isinstance(a, (Inst, ClassV)) and isinstance(b, (Inst, ClassV)):
            if isinstance(a, Inst):
                c, f = a.cls.find('__eq__')
                if f is not None:
                    return from_b(to_b(self.truth(self.I.call(BoundV(f, a), [b], {}))))
            return a is b
        if isinstance(a, TypeV) and isinstance(b, TypeV):
            return a.name == b.name
        raise Unsupported(f'equality of {type(a).__name__} and {type(b).__name__}')

    def word_index(self, j):
        """a joined string that spells the k-th word of itertools.product(letters, repeat=r): (sep, letters, r, k)"""
        nm, i = T.newvar('i')
        e = j.seg.fn(to_int(i))
        if not isinstance(e, V.SymStr):
            return None
        ds = [a for a in S.atoms_of(e.code).values() if a.kind == 'app' and a.args[0] == 'digit']
        if len(ds) != 1:
            return None
        d, r, k, pos = [to_int(pv(x)) for x in ds[0].args[1:]]
        if d.int_value() is None or not T.eq(pos, T.var(nm)).kind == 'true' or nm in k.fv or not self.I.prove(T.eq(r, j.seg.cnt)):
            return None
        lets = []
        for t in range(d.int_value()):
            c = S.replace_atom(e.code, ds[0], T.const(t)).int_value()
            if c is None or len(V._CODESTR[c]) != 1:
                return None
            lets.append(V._CODESTR[c])
        if len(set(lets)) != len(lets):
            return None
        return j.sep, tuple(lets), r, k

    def seq_eq(self, a, b):
        sa, sb = list(self.segs(a)), list(self.segs(b))
        if elementwise(sa) and elementwise(sb):
            return self.key_eq(tuple(s.v for s in sa), tuple(s.v for s in sb))
        na, nb = V.seqlen(sa), V.seqlen(sb)
        if self.I.prove(T.bnot(T.eq(na, nb))):
            return False
        if na.int_value() is not None or nb.int_value() is not None:
            k = na.int_value() if na.int_value() is not None else nb.int_value()
            if self.I.prove(T.eq(na, nb)):
                r = T.TRUE
                for t in range(k):
                    r = T.band(r, to_b(self.key_eq(self.seg_get(sa, T.const(t)), self.seg_get(sb, T.const(t)))))
                return from_b(r)
        if len(sa) == len(sb) == 1 and isinstance(sa[0], SegMap) and isinstance(sb[0], SegMap) and self.I.prove(T.eq(na, nb)):
            nm, k = T.newvar('k')
            e = self.key_eq(sa[0].fn(to_int(k)), sb[0].fn(to_int(k)))
            return from_b(T.forall(na, nm, to_b(e)))
        raise Unsupported('equality of symbolic sequences')

    def key_in_ent(self, e, k):
        """is k a key of family e:  (cond B, index Poly or None)"""
        if e.excludes(k):
            return T.FALSE, None
        nm, i = T.newvar('q')
        i = to_int(i)
        kk = e.k(i)
        c = to_b(self.key_eq(kk, k))
        if c.kind == 'false':
            return T.FALSE, None
        inside = [T.ge0(i), T.lt(i, e.cnt)]
        if S.infeasible(self.I.facts + inside + [c]):
            return T.FALSE, None
        # solve for i: look for an inverse
        idx = self.solve_index(kk, k, nm, e)
        if idx is not None:
            cond = T.band(T.ge0(idx), T.lt(idx, e.cnt), c.subst({nm: idx}))
            return cond, idx
        raise Unsupported('key lookup in a symbolic dict')

    def solve_index(self, kk, k, nm, e):
        """an index i with kk(i) == k, from component equations  kk_c(i) = i + c  or comb apps"""
        if not isinstance(kk, tuple):
            kk, k = (kk,), (k,)
        if not isinstance(k, tuple):
            return None
        combs = {}
        for a, b in zip(kk, k):
            if isinstance(a, Poly) and nm in a.fv:
                d = T.sub(a, T.var(nm))
                if nm not in d.fv and is_num(b):
                    return to_int(T.sub(pv(b), d))
                if len(a.terms) == 1:
                    ((sc, _), c), = a.terms.items()
                    if c == T.C1 and len(sc) == 1 and sc[0][1] == 1 and sc[0][0].kind == 'app' and sc[0][0].args[0].startswith('comb'):
                        at = sc[0][0]
                        combs[at.args[0]] = (at, b)
        if combs:
            for r in (2, 3):
                if all(f'comb{r}_{t}' in combs for t in range(r)):
                    at = combs[f'comb{r}_0'][0]
                    n = at.args[1]
                    off = T.sub(at.args[2], T.var(nm))
                    if nm in off.fv or any(combs[f'comb{r}_{t}'][0].args[2].key != at.args[2].key for t in range(r)):
                        return None
                    vals = [to_int(pv(combs[f'comb{r}_{t}'][1])) for t in range(r)]
                    # same position literally?
                    ks = set()
                    for v in vals:
                        if len(v.terms) == 1:
                            ((sc, _), c), = v.terms.items()
                            if c == T.C1 and len(sc) == 1 and sc[0][0].kind == 'app' and sc[0][0].args[0].startswith(f'comb{r}_'):
                                ks.add((sc[0][0].args[1].key, sc[0][0].args[2]))
                    if len(ks) == 1 and next(iter(ks))[0] == n.key:
                        return to_int(T.sub(next(iter(ks))[1], off))
                    return to_int(T.sub(T.app(f'comb{r}_inv', n, *vals), off))
        return None

    def dict_get(self, d, k):
        """value or UNDEF; forks when undetermined"""
        I = self.I
        if isinstance(k, SymObj) and 'dictget' in k.attrs:
            return k.attrs['dictget'](d)
        if isinstance(k, (PyList, PyDict)):
            raise RaiseSig('TypeError', 'unhashable')
        for e in reversed(d.ents):
            if isinstance(e, DPre):
                c = e.ph.contains(I, k)
                if c is False:
                    return I.lib.dict_get(PyDict(e.ph.v0), k) if e.ph.v0 else UNDEF
                raise Unsupported('lookup in a growing dict')
            if e.cnt is None:
                c = self.key_eq(e.k, k)
                if c is True:
                    return e.v
                if c is False:
                    continue
                if I.decide(c):
                    return e.v
                continue
            c, idx = self.key_in_ent(e, k)
            if c.kind == 'false':
                continue
            if I.decide(c):
                return e.v(idx)
        return UNDEF

    def dict_contains(self, d, k):
        I = self.I
        acc = T.FALSE
        if isinstance(k, SymObj) and 'dictget' in k.attrs:
            return k.attrs['dictget'](d) is not UNDEF
        for e in d.ents:
            if isinstance(e, DPre):
                c = e.ph.contains(I, k)
                if c is False:
                    for e0 in e.ph.v0:
                        acc = T.bor(acc, self._ent_has(e0, k))
                    continue
                raise Unsupported('membership in a growing dict')
            acc = T.bor(acc, self._ent_has(e, k))
        if acc.kind not in ('true', 'false'):
            if I.prove(acc):
                return True
            if I.prove(T.bnot(acc)):
                return False
        return from_b(acc)

    def _ent_has(self, e, k):
        if isinstance(e, DPre):
            raise Unsupported('nested growing dict')
        if e.cnt is None:
            return to_b(self.key_eq(e.k, k))
        return self.key_in_ent(e, k)[0]

    def dict_set(self, d, k, v):
        I = self.I
        if isinstance(k, (PyList, PyDict)):
            raise RaiseSig('TypeError', 'unhashable')
        ents = list(d.ents)
        for t in range(len(ents) - 1, -1, -1):
            e = ents[t]
            if isinstance(e, DPre):
                if e.ph.contains(I, k) is not False:
                    raise Unsupported('overwrite in a growing dict')
                for e0 in e.ph.v0:
                    if not I.prove(T.bnot(self._ent_has(e0, k))):
                        raise Unsupported('overwrite in a growing dict')
                continue
            if e.cnt is None:
                c = self.key_eq(e.k, k)
                if c is not False and (c is True or I.decide(c)):
                    ents[t] = DEnt(None, e.k, v, e.grp)
                    I.set(d, 'ents', tuple(ents))
                    return
                continue
            c, idx = self.key_in_ent(e, k)
            if c.kind == 'false' or I.prove(T.bnot(c)):
                continue
            if I.prove(c) and is_num(v):
                ov = e.v
                ents[t] = DEnt(e.cnt, e.k, lambda i: num(Poly(T.ite(T.eq(i, idx), pv(v), pv(ov(i))).terms, (), pv(v).pt)), e.grp)
                I.set(d, 'ents', tuple(ents))
                return
            raise Unsupported('store into a dict family')
        I.set(d, 'ents', tuple(ents) + (DEnt(None, k, v),))

    def dict_from_pairs(self, segs):
        d = PyDict()
        for s in segs:
            if isinstance(s, Seg1):
                k, v = self.unpack(s.v, 2)
                self.setitem(d, k, v)
            elif isinstance(s, SegMap):
                # keys must be distinct and not yet present
                fam = DEnt(s.cnt, (lambda i, s=s: s.fn(i)[0]), (lambda i, s=s: s.fn(i)[1]))
                ks = [SegMap(s.cnt, fam.k)] + [x for x in self.dict_segs(d, 'keys')]
                if not self.distinct(ks):
                    raise Unsupported('possibly duplicate keys')
                self.I.set(d, 'ents', d.ents + (fam,))
            else:
                raise Unsupported('dict from growing list')
        return d

    def extend_kwargs(self, extra, rest):
        if isinstance(extra, SymObj) and extra.kind == 'kwargs':
            return extra.attrs['extend'](rest)
        raise Unsupported('** of ' + repr(extra))

    # ------------------------------------------------------------ truth and operators
    def truth(self, v):
        if isinstance(v, (bool, B)):
            return v
        if isinstance(v, int):
            return v != 0
        if v is None:
            return False
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, Poly) and v.shape == ():
            return from_b(T.bnot(T.eq0(v)))
        if isinstance(v, (PyList, SymSeq, tuple)) and not isinstance(v, Vec):
            if isinstance(v, tuple):
                return len(v) > 0
            return from_b(T.lt(T.ZERO, V.seqlen(v.segs)))
        if isinstance(v, PySet) and v.sym is None and V.guarded(v):
            acc = T.FALSE
            for g in v.s['items']:
                if not isinstance(g, V.GPart):
                    if isinstance(g, (V.GFam, V.GPre)):
                        raise Unsupported('size of a growing set')
                    return True
                acc = T.bor(acc, g.cond)
            return from_b(acc)
        if isinstance(v, (PyDict, PySet)):
            n = self.b_len([v], {})
            return from_b(T.lt(T.ZERO, pv(n)))
        if isinstance(v, Arr) and T.scalar_like(v.val):
            return from_b(T.bnot(T.eq0(T.as_scalar(v.val))))
        if isinstance(v, (FuncV, ClassV, BoundV, Builtin)):
            return True
        if isinstance(v, Inst):
            if v.cls.find('__bool__')[1] is None and v.cls.find('__len__')[1] is None:
                return True
            if v.cls.find('__bool__')[1] is None:
                return self.truth(self.b_len([v], {}))
        if isinstance(v, SymObj):
            if 'truth' in v.attrs:
                return v.attrs['truth']
            return True
        raise Unsupported(f'truth of {type(v).__name__}')

    OPN = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__', ast.MatMult: '__matmul__'}

    def binop(self, op, a, b):
        if isinstance(a, Inst):
            c, f = a.cls.find(self.OPN.get(type(op), '?'))
            if f is not None:
                return self.I.call(BoundV(f, a), [b], {})
            raise RaiseSig('TypeError', 'unsupported operand')
        if isinstance(b, Inst):
            n = self.OPN.get(type(op), '?').replace('__', '__r', 1)
            c, f = b.cls.find(n)
            if f is not None:
                return self.I.call(BoundV(f, b), [a], {})
            raise RaiseSig('TypeError', 'unsupported operand')
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if isinstance(a, PySet) and isinstance(b, PySet):
                return self.set_op(op, a, b)
            if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
                x, y = to_b(a), to_b(b)
                if isinstance(op, ast.BitAnd):
                    return from_b(T.band(x, y))
                if isinstance(op, ast.BitOr):
                    return from_b(T.bor(x, y))
                return from_b(T.bor(T.band(x, T.bnot(y)), T.band(T.bnot(x), y)))
            if isinstance(a, int) and isinstance(b, int):
                return a & b if isinstance(op, ast.BitAnd) else (a | b if isinstance(op, ast.BitOr) else a ^ b)
            raise Unsupported('bit operation')
        if isinstance(op, (ast.LShift, ast.RShift)):
            if isinstance(op, ast.LShift) and is_num(a) and is_num(b):
                return num(to_int(T.smul(pv(a), T.pow2(pv(b)))))
            raise Unsupported('shift')
        if isinstance(a, PySet) and isinstance(b, PySet):
            return self.set_op(op, a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, (str, OpaqueStr)) and isinstance(b, (str, OpaqueStr)):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return OpaqueStr([a, b])
            if isinstance(a, PyList) and isinstance(b, PyList) and not isinstance(a, Vec) and not isinstance(b, Vec):
                return PyList(a.segs + b.segs)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (tuple, SymSeq)) and isinstance(b, (tuple, SymSeq)):
                return SymSeq(tuple(self.segs(a)) + tuple(self.segs(b)))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, str) and isinstance(y, int):
                    return x * y
                if isinstance(x, (PyList, tuple)) and not isinstance(x, Vec) and (isinstance(y, int) or (isinstance(y, Poly) and y.is_int())):
                    sg = list(self.segs(x))
                    if isinstance(y, int):
                        r = sg * y
                    elif len(sg) == 1 and isinstance(sg[0], Seg1):
                        v = sg[0].v
                        r = [SegMap(to_int(y), lambda i: v)]
                    elif elementwise(sg) and sg and all(s.v == sg[0].v for s in sg):
                        v = sg[0].v
                        r = [SegMap(to_int(T.smul(T.const(len(sg)), y)), lambda i: v)]
                    elif len(sg) == 1 and isinstance(sg[0], SegMap) and self._constfam(sg[0]) is not None:
                        v = self._constfam(sg[0])
                        r = [SegMap(to_int(T.smul(sg[0].cnt, y)), lambda i: v)]
                    else:
                        raise Unsupported('list repetition')
                    if isinstance(x, tuple):
                        return tuple(s.v for s in r) if elementwise(r) else SymSeq(r)
                    return PyList(r)
        if isinstance(op, ast.Mod) and isinstance(a, (str, OpaqueStr)):
            return OpaqueStr([a, b])
        if isinstance(a, (Vec,)) or isinstance(b, (Vec,)):
            return self.np.vec_binop(op, a, b)
        if isinstance(a, (Arr,)) and isinstance(b, (PyList,)) or isinstance(b, Arr) and isinstance(a, PyList):
            raise Unsupported('array with list')
        if (is_num(a) or isinstance(a, Arr)) and (is_num(b) or isinstance(b, Arr)):
            return self.arith(op, a, b)
        if isinstance(a, SymObj) and 'binop' in a.attrs:
            return a.attrs['binop'](op, a, b)
        if isinstance(b, SymObj) and 'binop' in b.attrs:
            return b.attrs['binop'](op, a, b)
        if a is None or b is None:
            raise RaiseSig('TypeError', 'None operand')
        raise Unsupported(f'{type(op).__name__} of {type(a).__name__} and {type(b).__name__}')

    def _constfam(self, s):
        nm, i = T.newvar('i')
        v = s.fn(to_int(i))
        return v if isinstance(v, int) else None

    def mod(self, a, b):
        return T.imod(a, b)

    def arith(self, op, a, b):
        x, y = pv(a), pv(b)
        arr = isinstance(a, Arr) or isinstance(b, Arr)
        try:
            if isinstance(op, ast.Add):
                r = T.add(x, y)
            elif isinstance(op, ast.Sub):
                r = T.sub(x, y)
            elif isinstance(op, ast.Mult):
                r = T.mul(x, y)
            elif isinstance(op, ast.Div):
                ys = T.as_scalar(y) if T.scalar_like(y) else None
                if ys is None:
                    raise Unsupported('division by array')
                if ys.const_value() is not None and ys.is_zero():
                    if arr:
                        raise Unsupported('numpy division by zero')
                    raise RaiseSig('ZeroDivisionError', self.I.where)
                r = T.div(x, y)
                if r.shape == ():
                    r.pt = T.join_pt(x.pt, y.pt, div=True)
            elif isinstance(op, ast.FloorDiv):
                r = T.fdiv(x, y)
                r.pt = T.join_pt(x.pt, y.pt)
            elif isinstance(op, ast.Mod) and not (x.is_int() and y.is_int()) and x.const_value() is None:
                r = self.real_mod(x, y)
            elif isinstance(op, ast.Mod):
                r = T.imod(x, y)
                r.pt = T.join_pt(x.pt, y.pt)
            elif isinstance(op, ast.Pow):
                r = self.power(x, y)
            elif isinstance(op, ast.MatMult):
                r = T.matmul(x, y)
            else:
                raise Unsupported('operator')
        except T.ShapeMismatch as e:
            if self.I.prove(T.eq(e.a, e.b)):
                raise Unsupported('shape equality not syntactic')
            raise RaiseSig('ValueError', f'shapes {e.a} {e.b} at {self.I.where}')
        if r.shape == () and not (arr and isinstance(op, ast.MatMult)):
            if arr and not isinstance(op, ast.MatMult):
                r.pt = 'complex'
            return num(r)
        if r.shape == ():
            r.pt = 'complex'
            return r
        return Arr(r)

    def real_mod(self, x, y):
        """x mod y for a real x in [-y, y), y > 0"""
        I = self.I
        if any(a.kind == 'nan' for a in S.atoms_of(x).values()):
            return T.mk('nan', x, y, typ='real').poly()
        if not (x.shape == () and x.is_real() and y.is_real() and I.prove(T.lt(T.ZERO, y))):
            raise Unsupported('modulo of real numbers')
        if not (I.prove(T.le(T.neg(y), x)) and I.prove(T.lt(x, y))):
            r = T.mk('fmod', x, y, typ='real').poly()
        elif I.prove(T.ge0(x)):
            r = x
        else:
            r = T.ite(T.ge0(x), x, T.add(x, y))
        return Poly(r.terms, (), 'float')

    def power(self, x, y):
        if x.shape != ():
            k = y.int_value()
            if k is not None and T.scalar_like(x):
                return T.with_shape(T.power(T.as_scalar(x), k), x.shape)
            raise Unsupported('array power')
        k = y.int_value()
        pt = T.join_pt(x.pt, y.pt)
        if k is not None:
            if k < 0 and x.is_zero():
                raise RaiseSig('ZeroDivisionError', '')
            r = T.power(x, k)
            r = Poly(r.terms, (), 'float' if k < 0 and pt == 'int' else pt)
            return r
        c = x.const_value()
        if c is not None and c.im == 0 and c.re == 2 and y.is_int():
            r = T.pow2(y)
            r = Poly(r.terms, (), pt)
            return r
        if c is not None and c.im == 0 and c.re > 0:
            f, e = c.re, 0
            while f.denominator == 1 and f.numerator % 2 == 0:
                f /= 2
                e += 1
            if f == 1 and e > 1 and y.is_int():
                return Poly(T.power(T.pow2(y), e).terms, (), pt)
        if c is not None and y.const_value() is not None and y.const_value().re == T.Fraction(1, 2):
            return T.sqrt(x)
        if c is not None and c.im == 0 and c.re.denominator == 1 and y.is_int():
            return Poly(T.mk('powc', x, y, typ='int').poly().terms, (), pt)
        raise Unsupported('power')

    def set_op(self, op, a, b):
        if a.sym is not None or b.sym is not None:
            return self.sym_set_op(op, a, b)
        if V.guarded(a) or V.guarded(b):
            if isinstance(op, ast.BitOr):
                return PySet(a.s['items'] + b.s['items'])
            if isinstance(op, ast.BitAnd):
                if V.guarded(b):
                    a, b = b, a
                return PySet([V.GPart(to_b(self.contains(a, y)), y) for y in V.plain(b)])
            if isinstance(op, ast.Sub):
                return PySet([V.GPart(T.bnot(to_b(self.contains(b, y))), y) for y in V.plain(a)])
            raise Unsupported('set operation')
        xs, ys = list(a.s['items']), list(b.s['items'])

        def has(zs, v):
            for z in zs:
                c = self.key_eq(z, v)
                if c is True or (c is not False and self.I.decide(c)):
                    return True
            return False
        if isinstance(op, ast.BitAnd):
            return PySet([x for x in xs if has(ys, x)])
        if isinstance(op, ast.Sub):
            return PySet([x for x in xs if not has(ys, x)])
        if isinstance(op, ast.BitOr):
            return PySet(xs + [y for y in ys if not has(xs, y)])
        raise Unsupported('set operation')

    def unop(self, op, v):
        if isinstance(op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else from_b(T.bnot(t))
        if isinstance(op, ast.Invert):
            if isinstance(v, (B, bool)) and getattr(self, 'np_bool_invert', True):
                # numpy booleans only reach this operator in the code base
                return from_b(T.bnot(to_b(v)))
            raise Unsupported('~')
        if isinstance(v, Vec):
            return self.np.vec_map(v, lambda x: self.unop(op, x))
        if isinstance(op, ast.USub):
            r = T.neg(pv(v))
            return num(r) if r.shape == () else Arr(r)
        if isinstance(op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def compare(self, op, a, b):
        if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
            if isinstance(a, SymObj) and 'is' in a.attrs:
                r = a.attrs['is'](b)
            elif a is None or b is None:
                if isinstance(a, SymObj) or isinstance(b, SymObj):
                    o = a if isinstance(a, SymObj) else b
                    r = from_b(o.attrs['isnone']) if 'isnone' in o.attrs else False
                else:
                    r = a is b
            elif isinstance(a, (bool, B)) and isinstance(b, bool):
                r = self.key_eq(a, b)
            elif isinstance(a, TypeV) and isinstance(b, TypeV):
                r = a.name == b.name
            else:
                r = a is b
            r = to_b(r)
            return from_b(r if isinstance(op, ast.Is) else T.bnot(r))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = to_b(self.contains(b, a))
            return from_b(r if isinstance(op, ast.In) else T.bnot(r))
        if isinstance(a, Vec) or isinstance(b, Vec):
            return self.np.vec_compare(op, a, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = to_b(self.value_eq(a, b))
            return from_b(r if isinstance(op, ast.Eq) else T.bnot(r))
        if isinstance(a, (Arr,)) or isinstance(b, Arr):
            if not (T.scalar_like(pv(a)) and T.scalar_like(pv(b))):
                raise Unsupported('array comparison')
        if (is_num(a) or isinstance(a, Arr)) and (is_num(b) or isinstance(b, Arr)):
            x, y = T.as_scalar(pv(a)), T.as_scalar(pv(b))
            if isinstance(op, ast.Lt):
                return from_b(T.lt(x, y))
            if isinstance(op, ast.LtE):
                return from_b(T.le(x, y))
            if isinstance(op, ast.Gt):
                return from_b(T.lt(y, x))
            if isinstance(op, ast.GtE):
                return from_b(T.le(y, x))
        if isinstance(a, SymObj) and a.kind == 'inf' or isinstance(b, SymObj) and b.kind == 'inf':
            return self.inf_compare(op, a, b)
        if isinstance(a, SymObj) and 'compare' in a.attrs:
            return a.attrs['compare'](op, a, b)
        if isinstance(b, SymObj) and 'compare' in b.attrs:
            return b.attrs['compare'](op, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, PyList) and isinstance(b, PyList):
            sa, sb = a.segs, b.segs
            if elementwise(sa) and elementwise(sb):
                return self.lex(op, [s.v for s in sa], [s.v for s in sb])
        if isinstance(a, Inst):
            n = {ast.Lt: '__lt__', ast.Gt: '__gt__', ast.LtE: '__le__', ast.GtE: '__ge__'}[type(op)]
            c, f = a.cls.find(n)
            if f is not None:
                return self.I.call(BoundV(f, a), [b], {})
        if a is None or b is None or isinstance(a, str) != isinstance(b, str):
            raise RaiseSig('TypeError', 'ordering of unlike values')
        raise Unsupported(f'comparison of {type(a).__name__} and {type(b).__name__}')

    def lex(self, op, a, b):
        for x, y in zip(a, b):
            if self.I.decide(to_b(self.key_eq(x, y))):
                continue
            return self.compare(op, x, y)
        return {ast.Lt: len(a) < len(b), ast.LtE: len(a) <= len(b), ast.Gt: len(a) > len(b), ast.GtE: len(a) >= len(b)}[type(op)]

    def inf_compare(self, op, a, b):
        # every number of the model is finite
        if isinstance(b, SymObj) and b.kind == 'inf':
            if not is_num(a):
                if a is None or isinstance(a, str):
                    raise RaiseSig('TypeError', 'ordering')
                raise Unsupported('inf comparison')
            return isinstance(op, (ast.Lt, ast.LtE))
        if not is_num(b):
            raise Unsupported('inf comparison')
        return isinstance(op, (ast.Gt, ast.GtE))

    def value_eq(self, a, b):
        if isinstance(a, (PyList, Vec)) and isinstance(b, (PyList, Vec)):
            if V.seqlen(a.segs).int_value() == 0 or V.seqlen(b.segs).int_value() == 0:
                return from_b(T.eq(V.seqlen(a.segs), V.seqlen(b.segs)))
            return self.seq_eq(SymSeq(a.segs), SymSeq(b.segs))
        if isinstance(a, (PyList, tuple, SymSeq)) != isinstance(b, (PyList, tuple, SymSeq)) and not isinstance(a, SymObj) and not isinstance(b, SymObj):
            return False
        if isinstance(a, PyList) != isinstance(b, PyList):
            return False
        if isinstance(a, PySet) and isinstance(b, PySet):
            if a.sym is None and b.sym is None:
                if V.guarded(a) or V.guarded(b):
                    a, b = (a, b) if V.guarded(a) else (b, a)
                    if len(V.plain(b)) == 0:
                        return from_b(T.bnot(to_b(self.truth(a))))
                    raise Unsupported('equality of sets with conditional elements')
                if not a.s['items'] or not b.s['items']:
                    return len(a.s['items']) == len(b.s['items'])
                return all(self.contains(b, x) is True for x in a.s['items']) and all(self.contains(a, x) is True for x in b.s['items'])
        if isinstance(a, Arr) or isinstance(b, Arr):
            x, y = pv(a), pv(b)
            if T.scalar_like(x) and T.scalar_like(y):
                return from_b(T.eq(T.as_scalar(x), T.as_scalar(y)))
            raise Unsupported('array equality')
        return self.key_eq(a, b)

    def guarded_member(self, items, x):
        acc = T.FALSE
        for g in items:
            if isinstance(g, V.GPart):
                acc = T.bor(acc, T.band(g.cond, to_b(self.value_eq(x, g.v))))
            elif isinstance(g, V.GFam):
                nm, i = T.newvar('i')
                i = to_int(i)
                acc = T.bor(acc, T.bnot(T.forall(g.cnt, nm, T.bnot(T.band(g.cond(i), to_b(self.value_eq(x, g.v(i))))))))
            elif isinstance(g, V.GPre):
                acc = T.bor(acc, g.ph.member(self, g.j, x))
            else:
                acc = T.bor(acc, to_b(self.value_eq(x, g)))
        return from_b(acc)

    def contains(self, c, x):
        if isinstance(c, DictView):
            if c.what == 'keys':
                return self.dict_contains(c.d, x)
            c = SymSeq(self.dict_segs(c.d, c.what))
        if isinstance(c, PyDict):
            return self.dict_contains(c, x)
        if isinstance(c, SymObj) and 'contains' in c.attrs:
            return c.attrs['contains'](x)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Unsupported('in string')
        if isinstance(c, PySet) and c.sym is None:
            if V.guarded(c):
                return self.guarded_member(c.s['items'], x)
            sg = [Seg1(v) for v in c.s['items']]
        elif isinstance(c, PySet):
            if getattr(c, 'expr', None) is not None or (len(c.sym) == 1 and self.base_of(c.sym[0]) is not None):
                return from_b(self.set_member(self.set_expr(c), to_int(pv(x)))) if is_num(x) else False
            sg = c.sym
        else:
            sg = self.segs(c)
        if isinstance(c, SymSeq) and c.kind == 'range' and len(sg) == 1 and isinstance(sg[0], SegMap) and is_num(x):
            f0 = pv(sg[0].fn(T.ZERO))
            f1 = pv(sg[0].fn(T.ONE))
            if T.sub(f1, f0).int_value() == 1:
                d = T.sub(pv(x), f0)
                return from_b(T.band(T.ge0(d), T.lt(d, sg[0].cnt)))
        acc = T.FALSE
        for s in sg:
            if isinstance(s, Seg1):
                acc = T.bor(acc, to_b(self.value_eq(x, s.v)))
            elif isinstance(s, SegMap):
                nm, k = T.newvar('k')
                e = to_b(self.value_eq(x, s.fn(to_int(k))))
                acc = T.bor(acc, T.bnot(T.forall(s.cnt, nm, T.bnot(e))))
            else:
                raise Unsupported('membership in a growing list')
        return from_b(acc)

    # ------------------------------------------------------------ attributes
    def attr(self, o, a):
        if type(o).__name__ == 'Graph':
            from . import libnx
            return libnx.graph_attr(self, o, a)
        from .interp import SuperV
        I = self.I
        if isinstance(o, ModuleV):
            return self.mod_attr(o, a)
        if isinstance(o, SuperV):
            mro = o.self_.cls.mro()
            for c in mro[mro.index(o.cls) + 1:]:
                if a in c.ns:
                    f = c.ns[a]
                    return BoundV(f, o.self_)
            if a == '__init__':
                return Builtin('object.__init__', lambda args, kw: None)
            raise RaiseSig('AttributeError', a)
        if isinstance(o, SymObj):
            if a in o.attrs:
                v = o.attrs[a]
                if isinstance(v, Thunk):
                    return v.f()
                return v
            raise (RaiseSig('AttributeError', a) if getattr(o, 'closed', False) else Unsupported(f'{o.kind}.{a}'))
        if isinstance(o, Arr) or isinstance(o, Vec):
            return self.np.arr_attr(o, a)
        if isinstance(o, PyList):
            f = getattr(self, 'list_' + a, None)
            if f:
                return Builtin('list.' + a, lambda args, kw: f(o, args, kw))
        if isinstance(o, PyDict):
            if a in ('keys', 'values', 'items'):
                return Builtin('dict.' + a, lambda args, kw: DictView(o, a))
            f = getattr(self, 'dict_m_' + a, None)
            if f:
                return Builtin('dict.' + a, lambda args, kw: f(o, args, kw))
        if isinstance(o, PySet):
            f = getattr(self, 'set_m_' + a, None)
            if f:
                return Builtin('set.' + a, lambda args, kw: f(o, args, kw))
        if isinstance(o, (str, OpaqueStr)):
            return Builtin('str.' + a, lambda args, kw: self.str_method(o, a, args, kw))
        if isinstance(o, ClassV):
            c, f = o.find(a)
            if c is not None:
                return f
            if a == '__name__':
                return o.name
        if isinstance(o, (Poly, int, B)) and not isinstance(o, str):
            p = pv(o)
            if a == 'real':
                return num(T.real_part(p))
            if a == 'imag':
                return num(T.imag_part(p))
            if a in ('conj', 'conjugate'):
                return Builtin('conj', lambda args, kw: num(T.conj(p)))
            if a == 'item':
                return Builtin('item', lambda args, kw: o)
            if a == 'T':
                return o
        if isinstance(o, (tuple, SymSeq)):
            if a == 'index':
                return Builtin('index', lambda args, kw: self.list_index(o, args, kw))
            if a == 'count':
                return Builtin('count', lambda args, kw: self.list_count(o, args, kw))
        if isinstance(o, (FuncV, BoundV, Builtin)) and a == '__name__':
            return getattr(o, 'name', 'f')
        if isinstance(o, TypingV):
            return o
        if isinstance(o, TypeV) and a == '__name__':
            return OpaqueStr(['name'])
        if isinstance(o, TypeV) and o.name == 'dict' and a == 'fromkeys':
            return Builtin('fromkeys', lambda args, kw: self.dict_from_pairs([Seg1((s.v, args[1] if len(args) > 1 else None)) for s in self.segs(args[0])]))
        if o is None or isinstance(o, (tuple, int, Poly)):
            raise RaiseSig('AttributeError', a)
        raise Unsupported(f'attribute {a} of {type(o).__name__}')

    # lists
    def list_append(self, o, args, kw):
        self.I.set(o, 'segs', o.segs + (Seg1(args[0]),))

    def list_extend(self, o, args, kw):
        self.I.set(o, 'segs', o.segs + tuple(self.segs(args[0])))

    def list_copy(self, o, args, kw):
        return PyList(o.segs)

    def list_clear(self, o, args, kw):
        self.I.set(o, 'segs', ())

    def list_pop(self, o, args, kw):
        if not args or args[0] == -1:
            if o.segs and isinstance(o.segs[-1], Seg1):
                v = o.segs[-1].v
                self.I.set(o, 'segs', o.segs[:-1])
                return v
        elif isinstance(args[0], int) and elementwise(o.segs[:args[0] + 1]) and 0 <= args[0] < len(o.segs):
            v = o.segs[args[0]].v
            self.I.set(o, 'segs', o.segs[:args[0]] + o.segs[args[0] + 1:])
            return v
        raise Unsupported('pop')

    def list_insert(self, o, args, kw):
        if isinstance(args[0], int) and elementwise(o.segs) and args[0] >= 0:
            k = min(args[0], len(o.segs))
            self.I.set(o, 'segs', o.segs[:k] + (Seg1(args[1]),) + o.segs[k:])
            return
        if args[0] == 0:
            self.I.set(o, 'segs', (Seg1(args[1]),) + o.segs)
            return
        raise Unsupported('insert')

    def list_reverse(self, o, args, kw):
        self.I.set(o, 'segs', tuple(self.b_reversed([o], {}).segs))

    def list_sort(self, o, args, kw):
        self.I.set(o, 'segs', self.b_sorted([o], kw).segs)

    def list_index(self, o, args, kw):
        sg = self.segs(o)
        if elementwise(sg):
            for i, s in enumerate(sg):
                if self.I.decide(to_b(self.value_eq(s.v, args[0]))):
                    return i
            raise RaiseSig('ValueError', 'index')
        if len(sg) == 1 and len(args) == 1 and is_num(args[0]):
            b = self.base_of(sg[0])
            if b is not None:
                from . import loops
                x = to_int(pv(args[0]))
                if self.I.decide(base_member(b, x)):
                    return num(to_int(T.app(loops.INVERSE[b[0]], x)))
                raise RaiseSig('ValueError', 'index')
        raise Unsupported('index in symbolic list')

    def list_count(self, o, args, kw):
        sg = self.segs(o)
        tot = T.ZERO
        for s in sg:
            if not isinstance(s, Seg1):
                raise Unsupported('count')
            c = to_b(self.value_eq(s.v, args[0]))
            tot = T.add(tot, to_int(T.ite(c, T.ONE, T.ZERO)))
        return num(to_int(tot))

    def list_remove(self, o, args, kw):
        if elementwise(o.segs):
            for i, s in enumerate(o.segs):
                if self.I.decide(to_b(self.value_eq(s.v, args[0]))):
                    self.I.set(o, 'segs', o.segs[:i] + o.segs[i + 1:])
                    return
            raise RaiseSig('ValueError', 'remove')
        raise Unsupported('remove')

    # dicts
    def dict_m_get(self, o, args, kw):
        d = args[1] if len(args) > 1 else kw.get('default')
        r = self.dict_get(o, args[0])
        return d if r is UNDEF else r

    def dict_m_pop(self, o, args, kw):
        ents = list(o.ents)
        for k, e in enumerate(ents):
            if isinstance(e, DEnt) and e.cnt is None:
                if self.key_eq(e.k, args[0]) is True:
                    del ents[k]
                    self.I.set(o, 'ents', tuple(ents))
                    return e.v
            else:
                raise Unsupported('pop from symbolic dict')
        if len(args) > 1:
            return args[1]
        raise RaiseSig('KeyError', 'pop')

    def dict_m_update(self, o, args, kw):
        if args:
            src = args[0]
            for s in (self.dict_segs(src, 'items') if isinstance(src, PyDict) else self.segs(src)):
                if not isinstance(s, Seg1):
                    raise Unsupported('update')
                k, v = self.unpack(s.v, 2)
                self.setitem(o, k, v)
        for k, v in kw.items():
            self.setitem(o, k, v)

    def dict_m_setdefault(self, o, args, kw):
        r = self.dict_get(o, args[0])
        if r is UNDEF:
            v = args[1] if len(args) > 1 else None
            self.setitem(o, args[0], v)
            return v
        return r

    def dict_m_copy(self, o, args, kw):
        return PyDict(o.ents)

    # sets
    def set_m_add(self, o, args, kw):
        if o.sym is not None:
            raise Unsupported('add to symbolic set')
        if V.guarded(o):
            self.I.set(o, 'items', o.s['items'] + (args[0],))
            return
        c = to_b(self.contains(o, args[0]))
        if c.kind == 'false' or (c.kind != 'true' and not self.I.decide(c)):
            self.I.set(o, 'items', o.s['items'] + (args[0],))

    def set_m_remove(self, o, args, kw):
        xs = list(V.plain(o))
        for i, x in enumerate(xs):
            if self.I.decide(to_b(self.key_eq(x, args[0]))):
                del xs[i]
                self.I.set(o, 'items', tuple(xs))
                return
        raise RaiseSig('KeyError', 'remove')

    def set_m_update(self, o, args, kw):
        for s in self.segs(args[0]):
            if not isinstance(s, Seg1):
                raise Unsupported('set update')
            self.set_m_add(o, [s.v], {})

    def set_m_intersection(self, o, args, kw):
        return self.set_op(ast.BitAnd(), o, self.make_set(self.segs(args[0])))

    def set_m_isdisjoint(self, o, args, kw):
        t = self.truth(self.set_m_intersection(o, args, kw))
        return (not t) if isinstance(t, bool) else from_b(T.bnot(t))

    def set_m_difference(self, o, args, kw):
        return self.set_op(ast.Sub(), o, self.make_set(self.segs(args[0])))

    def set_m_union(self, o, args, kw):
        return self.set_op(ast.BitOr(), o, self.make_set(self.segs(args[0])))

    def str_method(self, o, a, args, kw):
        if a == 'join':
            sg = self.segs(args[0])
            if elementwise(sg) and isinstance(o, str) and all(isinstance(s.v, str) for s in sg):
                return o.join(s.v for s in sg)
            if len(sg) == 1 and isinstance(sg[0], SegMap):
                return JoinStr(o, sg[0])
            return OpaqueStr([o, 'join'] + [getattr(s, 'v', None) for s in sg])
        if isinstance(o, str) and all(isinstance(x, (str, int)) for x in args) and not kw and \
                a in ('upper', 'lower', 'count', 'replace', 'strip', 'split', 'startswith', 'endswith', 'find', 'index', 'isdigit'):
            r = getattr(o, a)(*args)
            return PyList([Seg1(x) for x in r]) if isinstance(r, list) else r
        if a == 'format':
            return OpaqueStr([o] + list(args))
        raise Unsupported('str.' + a)


class Thunk:
    def __init__(self, f):
        self.f = f


class TypingV:
    def __repr__(self):
        return '<typing>'


# axioms about enumerations
def _comb_ax(a):
    name = a.args[0]
    r = int(name[4])
    n, k = a.args[1], a.args[2]
    cs = [to_int(T.app(f'comb{r}_{t}', n, k)) for t in range(r)]
    guard = T.band(T.ge0(k), T.lt(k, to_int(T.app(f'ncomb{r}', n))))
    out = [T.ge0(cs[0]), T.lt(cs[-1], n)] + [T.lt(cs[t], cs[t + 1]) for t in range(r - 1)]
    out.append(T.eq(to_int(T.app(f'comb{r}_inv', n, *cs)), k))
    return [T.bor(T.bnot(guard), x) for x in out]


for _r in (2, 3):
    for _t in range(_r):
        S.AXIOMS[f'comb{_r}_{_t}'] = _comb_ax


def _comb_inv_ax(a):
    r = int(a.args[0][4])
    n, cs = a.args[1], a.args[2:]
    k = to_int(a.poly())
    guard = T.band(T.ge0(cs[0]), T.lt(cs[-1], n), *[T.lt(cs[t], cs[t + 1]) for t in range(r - 1)])
    nc = to_int(T.app(f'ncomb{r}', n))
    post = [T.ge0(k), T.lt(k, nc)] + [T.eq(to_int(T.app(f'comb{r}_{t}', n, k)), cs[t]) for t in range(r)]
    return [T.bor(T.bnot(guard), x) for x in post]


S.AXIOMS['comb2_inv'] = S.AXIOMS['comb3_inv'] = _comb_inv_ax


def _ncomb_ax(a):
    r = int(a.args[0][5])
    n = a.args[1]
    p = to_int(a.poly())
    return [T.ge0(p), T.bor(T.lt(n, T.const(r)), T.le(T.ONE, p)), T.bor(T.le(T.const(r), n), T.eq0(p))]


S.AXIOMS['ncomb2'] = S.AXIOMS['ncomb3'] = _ncomb_ax


def _pow2_ax(a):
    p = to_int(a.poly())
    return [T.le(T.ONE, p)]


S.AXIOMS['pow2'] = _pow2_ax


def _powc_ax(a):
    p = to_int(a.poly())
    return [T.ge0(p)]


S.AXIOMS['powc'] = _powc_ax


def _digit_ax(a):
    d, r, k, i = a.args[1:]
    p = to_int(a.poly())
    return [T.ge0(p), T.lt(p, d)]


S.AXIOMS['digit'] = _digit_ax


PERMS = {}


def base_member(b, x):
    """x is f(i) for some i < K"""
    from . import loops
    i = to_int(T.app(loops.INVERSE[b[0]], x))
    return T.band(T.ge0(i), T.lt(i, b[1]), T.eq(to_int(T.app(b[0], i)), x))


def _ndistinct_ax(a):
    """the number of different values is at most the count, with equality exactly when all are different"""
    cnt, bn, bb = a.args
    p = to_int(a.poly())
    names, vs, b = T.open_binder(bn, bb)
    b = b if isinstance(b, tuple) else (b,)         # blocks of values
    w = len(b)
    f = lambda t, i: b[t].subst({names[0]: i})
    an, x = T.newvar('a')
    cn, y = T.newvar('b')
    x, y = to_int(x), to_int(y)
    i, k = [to_int(T.mk('argof', a.key + t, typ='int').poly()) for t in '12']
    alldiff = T.forall(cnt, an, T.forall(cnt, cn, T.band(*[T.bor(T.eq(x, y), T.bnot(T.eq(f(s, x), f(t, y)))) for s in range(w) for t in range(w)])))
    inner = T.forall(cnt, an, T.band(*[T.bnot(T.eq(f(s, x), f(t, x))) for s in range(w) for t in range(s)])) if w > 1 else T.TRUE
    rng = [T.ge0(i), T.le(i, k), T.lt(k, cnt)]
    clash = T.bor(*[T.band(*rng, T.lt(i, k) if s >= t else T.TRUE, T.eq(f(s, i), f(t, k))) for s in range(w) for t in range(w)])
    tot = to_int(T.smul(T.const(w), cnt))
    return [T.le(p, tot), T.bor(T.bnot(T.eq(p, tot)), T.band(alldiff, inner)), T.bor(T.eq(p, tot), clash)]


S.AXIOMS['ndistinct'] = _ndistinct_ax


def _maxof_ax(a):
    """an upper (lower) bound of the family that is attained"""
    which, cnt, bn, bb = a.args
    M = a.poly()
    M = to_int(M) if a.typ == 'int' else M
    names, vs, b = T.open_binder(bn, bb)
    w = to_int(T.mk('argof', a.key, typ='int').poly())
    le = T.le if which == 'max' else (lambda x, y: T.le(y, x))
    return [T.forall(cnt, names[0], le(b, M)), T.bor(T.le(cnt, T.ZERO), T.band(T.ge0(w), T.lt(w, cnt), T.eq(M, b.subst({names[0]: w}))))]


S.AXIOMS['maxof'] = _maxof_ax


def lam_at(a):
    """count and element function of a lam atom"""
    cnt, bn, bb = a.args
    if bn == ('none',):
        return T.ONE, lambda i: bb

    def at(i):
        names, vs, b = T.open_binder(bn, bb)
        return b.subst({names[0]: i})
    return cnt, at


def extremal_at(a):
    """position (one for all families) of the extremum"""
    return to_int(T.mk('var', f'extremal {list(ATTAINED).index(a.key) if a.key in ATTAINED else len(ATTAINED)}', 'int', typ='int').poly())


ATTAINED = {}


def attained(a):
    """[(count, element function, B)]: the extremum is attained in one of the families (unless all are empty),
    in family t at position extremal_at(a) when the t-th predicate holds; these are symbols of their own"""
    if a.key not in ATTAINED:
        name = f'attained {len(ATTAINED)}'
        fams = [lam_at(l) for l in a.args[1]]
        w = extremal_at(a)
        fams = [(cnt, at, T.eq(to_int(T.app(name, T.const(t))), T.ONE)) for t, (cnt, at) in enumerate(fams)]
        ax = [T.bor(*[T.band(h, T.ge0(w), T.lt(w, cnt)) for cnt, at, h in fams], T.band(*[T.le(cnt, T.ZERO) for cnt, _, _ in fams]))]
        S.AXIOMS[name] = lambda x: ax
        ATTAINED[a.key] = fams
    return ATTAINED[a.key]


