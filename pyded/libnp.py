"""Assumed contracts of numpy / scipy.linalg (exact arithmetic)."""
import ast
from fractions import Fraction
from . import terms as T
from . import solve as S
from .terms import Poly, B, Unsupported
from .values import *
from . import values as V
from .interp import RaiseSig

PI = T.mk('var', 'pi', 'real', typ='real').poly()
PI.pt = 'float'
INF = SymObj('inf', key='inf')


def pi_poly():
    return Poly(PI.terms, (), 'float')


class NdV:
    """np.ix style opaque"""


class Np:
    def __init__(self, L):
        self.L = L
        self.I = L.I

    def attr(self, mod, a):
        from .libs import TypeV
        if mod == 'numpy':
            if a == 'pi':
                return pi_poly()
            if a == 'inf':
                return INF
            if a == 'newaxis':
                return None
            if a in ('linalg', 'random'):
                return ModuleV('numpy.' + a, None)
            if a in ('ndarray',):
                return TypeV('ndarray')
            if a in ('int', 'float', 'complex', 'bool'):
                return TypeV(a)
            if a in ('float64', 'floating'):
                return TypeV('np.floating')
            if a in ('integer', 'int64', 'int32'):
                return TypeV('np.integer')
            if a in ('complex128', 'complex64'):
                return TypeV('complex')
        pre = {'numpy': 'np_', 'scipy.linalg': 'la_', 'numpy.linalg': 'la_', 'numpy.random': 'rd_'}[mod]
        f = getattr(self, pre + a, None)
        if f is None:
            raise Unsupported(f'{mod}.{a}')
        return Builtin(f'{mod}.{a}', f)

    # ------------------------------------------------------------ helpers
    def arr(self, v):
        """Poly of an array-like"""
        if isinstance(v, Arr):
            return v.val
        if is_num(v):
            return to_poly(v)
        if isinstance(v, (PyList, tuple)):
            return self.np_array([v], {}).val if not isinstance(v, Vec) else self.vec_poly(v)
        raise Unsupported(f'array of {type(v).__name__}')

    def vec_poly(self, v):
        raise Unsupported('vector as array')

    def out(self, p):
        return num(p) if p.shape == () else Arr(p)

    # ------------------------------------------------------------ construction
    def np_eye(self, args, kw):
        n = to_int(to_poly(args[0]))
        m = args[1] if len(args) > 1 else kw.get('M')
        if m is not None and not T.eq(n, to_int(to_poly(m))).kind == 'true':
            raise Unsupported('rectangular eye')
        return Arr(T.eye(n))

    def np_identity(self, args, kw):
        return self.np_eye(args[:1], {})

    def shape_arg(self, s):
        if is_num(s):
            return (to_int(to_poly(s)),)
        return tuple(to_int(to_poly(x.v)) for x in self.L.segs(s))

    def np_zeros(self, args, kw):
        shp = self.shape_arg(args[0] if args else kw['shape'])
        dt = kw.get('dtype', args[1] if len(args) > 1 else None)
        return self.full(shp, 0, dt)

    def full(self, shp, c, dt):
        from .libs import TypeV
        if len(shp) == 1:
            pt = 'int' if isinstance(dt, TypeV) and dt.name in ('int', 'np.integer') else ('complex' if isinstance(dt, TypeV) and dt.name == 'complex' else 'float')
            v = T.const(c)
            v = Poly(v.terms, (), 'int' if pt == 'int' else pt)
            k = shp[0].int_value()
            if k is not None:
                return Vec([Seg1(num(v)) for _ in range(k)])
            if not self.I.prove(T.ge0(shp[0])):
                raise Unsupported('possibly negative length')
            return Vec([SegMap(shp[0], lambda i: num(v))])
        if len(shp) == 2 and c == 0:
            return Arr(Poly({}, shp))
        raise Unsupported('array constructor')

    def np_ones(self, args, kw):
        return self.full(self.shape_arg(args[0]), 1, kw.get('dtype'))

    def np_zeros_like(self, args, kw):
        v = args[0]
        if isinstance(v, Arr):
            return Arr(Poly({}, v.val.shape))
        raise Unsupported('zeros_like')

    def np_arange(self, args, kw):
        return Vec(self.L.b_range(args, {}).segs)

    def np_array(self, args, kw):
        v = args[0]
        if isinstance(v, Arr):
            return Arr(v.val)
        if isinstance(v, Vec):
            return Vec(v.segs)
        if is_num(v):
            return v
        sg = list(self.L.segs(v))
        if elementwise(sg) and sg and all(isinstance(s.v, (PyList, tuple)) for s in sg):
            rows = []
            ok = True
            for s in sg:
                r = []
                for x in self.L.segs(s.v):
                    if not isinstance(x, Seg1) or not is_num(x.v):
                        ok = False
                        break
                    c = to_poly(x.v).const_value()
                    if c is None:
                        ok = False
                        break
                    r.append(c)
                if not ok:
                    break
                rows.append(r)
            if ok and len({len(r) for r in rows}) == 1:
                return Arr(T.cmat(rows))
            raise Unsupported('array of rows')
        return Vec(sg)

    def np_asarray(self, args, kw):
        if isinstance(args[0], (Arr, Vec)):
            return args[0]
        return self.np_array(args, kw)

    def np_copy(self, args, kw):
        v = args[0]
        if is_num(v):
            return v
        if isinstance(v, SymObj):
            return v
        if isinstance(v, (Arr, Vec)):
            return self.np_array([v], {})
        return SymObj('npcopy', {'of': v}, key=('npcopy', id(v))) if not isinstance(v, PyList) else self.copy_list(v)

    def copy_list(self, v):
        return Vec(v.segs)

    def np_full(self, args, kw):
        shp = self.shape_arg(args[0])
        if len(shp) == 1:
            v = args[1]
            return Vec([SegMap(shp[0], lambda i: v)])
        raise Unsupported('full')

    def np_diag(self, args, kw):
        v = args[0]
        if isinstance(v, Arr) and v.val.shape and len(v.val.shape) == 1:
            return Arr(T.diag(v.val))
        raise Unsupported('diag')

    def np_kron(self, args, kw):
        a, b = self.arr(args[0]), self.arr(args[1])
        return Arr(T.kron(a, b))

    def small_vector(self, v):
        """entries of a vector with a fixed number of scalar entries"""
        if isinstance(v, Vec) and elementwise(list(v.segs)) and all(is_num(s.v) for s in v.segs):
            return [T.as_scalar(to_poly(s.v)) for s in v.segs]
        return None

    def np_outer(self, args, kw):
        x, y = self.small_vector(args[0]), self.small_vector(args[1])
        if x and y:
            return Arr(T.entry_matrix([[T.smul(a, b) for b in y] for a in x]))
        a, b = self.arr(args[0]), self.arr(args[1])
        f = lambda p: Poly(p.terms, (p.shape[0],)) if len(p.shape) == 2 and T.is_one_dim(p.shape[1]) else p
        a, b = f(a), f(b)
        if len(a.shape) != 1 or len(b.shape) != 1:
            raise Unsupported('outer of matrices')
        return Arr(T.outer(a, b))

    def np_vdot(self, args, kw):
        a, b = self.arr(args[0]), self.arr(args[1])
        return self.out(T.matmul(T.conj(a), b))

    def np_dot(self, args, kw):
        return self.L.arith(ast.MatMult(), args[0], args[1])

    np_matmul = np_dot

    def np_trace(self, args, kw):
        return num(Poly(T.trace(self.arr(args[0])).terms, (), 'complex'))

    def np_conj(self, args, kw):
        v = args[0]
        if isinstance(v, Vec):
            return self.vec_map(v, lambda x: num(T.conj(to_poly(x))))
        return self.out(T.conj(self.arr(v)))

    np_conjugate = np_conj

    def np_transpose(self, args, kw):
        return Arr(T.transpose(self.arr(args[0])))

    def np_real(self, args, kw):
        p = self.arr(args[0])
        r = T.real_part(p)
        if r.shape == ():
            r.pt = 'float'
        return self.out(r)

    def np_imag(self, args, kw):
        p = self.arr(args[0])
        r = T.imag_part(p)
        if r.shape == ():
            r.pt = 'float'
        return self.out(r)

    def np_isreal(self, args, kw):
        p = T.as_scalar(self.arr(args[0]))
        return from_b(T.eq0(T.imag_part(p)))

    def np_abs(self, args, kw):
        v = args[0]
        if isinstance(v, Vec):
            return self.vec_map(v, lambda x: self.L.b_abs([x], {}))
        return self.L.b_abs([v], {})

    np_absolute = np_abs

    def np_sqrt(self, args, kw):
        p = self.arr(args[0])
        if not T.scalar_like(p):
            raise Unsupported('sqrt of array')
        r = T.sqrt(T.as_scalar(p))
        r = Poly(r.terms, (), 'complex' if p.pt == 'complex' else 'float')
        return num(r)

    def np_log2(self, args, kw):
        p = T.as_scalar(self.arr(args[0]))
        r = T.log2(p)
        return num(Poly(r.terms, (), 'float'))

    def np_exp(self, args, kw):
        v = args[0]
        if isinstance(v, Vec):
            raise Unsupported('exp of vector')
        q = self.arr(v)
        if q.shape == () and not q.is_zero() and T.add(q, T.conj(q)).is_zero():
            x = T.mul(T.const(-1j), q)            # exp(i x) of a real x
            r = T.add(trig('cos', x), T.mul(T.const(1j), trig('sin', x)))
            return num(Poly(r.terms, (), 'complex'))
        return self.out(T.expel(q))

    def np_prod(self, args, kw):
        v = args[0]
        sg = self.L.segs(v)
        if elementwise(sg):
            r = T.ONE
            r.pt = 'float'
            acc = T.const(1.0)
            for s in sg:
                acc = T.mul(acc, to_poly(s.v))
                acc.pt = to_poly(s.v).pt or 'complex'
            return num(acc)
        acc = T.const(1.0)
        for x in sg:
            if isinstance(x, Seg1):
                acc = T.mul(acc, to_poly(x.v))
            elif isinstance(x, SegMap):
                nm, i = T.newvar('i')
                acc = T.mul(acc, T.bigprod(x.cnt, nm, T.as_scalar(to_poly(x.fn(to_int(i))))))
            else:
                raise Unsupported('prod of symbolic list')
        return num(Poly(acc.terms, (), 'complex'))

    def np_sum(self, args, kw):
        v = args[0]
        if isinstance(v, (Vec, PyList, SymSeq)) and not kw:
            return self.L.b_sum([v], {})
        if isinstance(v, (PyList, SymSeq)) and kw.get('axis') == 0:
            return self.L.b_sum([v], {})
        raise Unsupported('np.sum')

    def np_sign(self, args, kw):
        raise Unsupported('np.sign')

    def np_isclose(self, args, kw):
        a, b = args[0], args[1]
        atol = kw.get('atol', args[3] if len(args) > 3 else T.const(1e-8))
        rtol = kw.get('rtol', args[2] if len(args) > 2 else T.const(1e-5))
        if atol is None:
            raise RaiseSig('TypeError', 'atol None')
        pa, pb = T.as_scalar(self.arr(a)), T.as_scalar(self.arr(b))
        lhs = T.absval(T.sub(pa, pb))
        rhs = T.add(to_poly(atol), T.smul(to_poly(rtol), T.absval(pb)))
        return from_b(T.ge0(T.sub(rhs, lhs)))

    def np_allclose(self, args, kw):
        a, b = self.arr(args[0]), self.arr(args[1])
        return from_b(T.pred('allclose', a, b, *[to_poly(kw[k]) for k in sorted(kw)]))

    def np_max(self, args, kw):
        v = args[0]
        if isinstance(v, Arr):
            p = v.val
            if p.is_zero():
                return T.const(0.0)
            r = T.mk('amax', p, typ='real').poly()
            return Poly(r.terms, (), 'float')
        return self.L.b_max([v], {})

    np_amax = np_max

    def np_min(self, args, kw):
        return self.L.b_min(args, kw)

    def np_arctan2(self, args, kw):
        y, x = T.as_scalar(self.arr(args[0])), T.as_scalar(self.arr(args[1]))
        if x.is_zero() and y.is_zero():
            return T.const(0.0)
        r = T.mk('atan2', y, x, typ='real').poly()
        return Poly(r.terms, (), 'float')

    def np_cos(self, args, kw):
        p = T.as_scalar(self.arr(args[0]))
        return Poly(trig('cos', p).terms, (), 'float')

    def np_sin(self, args, kw):
        p = T.as_scalar(self.arr(args[0]))
        return Poly(trig('sin', p).terms, (), 'float')

    def np_where(self, args, kw):
        v = args[0]
        if len(args) == 1 and isinstance(v, Vec):
            out = []
            off = T.ZERO
            for s in v.segs:
                if isinstance(s, Seg1):
                    c = to_b(s.v)
                    if self.I.decide(c):
                        out.append(Seg1(num(to_int(off))))
                    off = to_int(T.add(off, T.ONE))
                elif isinstance(s, SegMap):
                    nm, i = T.newvar('i')
                    c = to_b(s.fn(to_int(i)))
                    fs = self.I.facts + [T.ge0(i), T.lt(i, s.cnt)]
                    if S.prove(c, fs):
                        out.append(SegMap(s.cnt, lambda i, off=off: num(to_int(T.add(off, i))), True))
                    elif not S.prove(T.bnot(c), fs):
                        raise Unsupported('where on a mixed vector')
                    off = to_int(T.add(off, s.cnt))
                else:
                    raise Unsupported('where')
            return (Vec(out),)
        raise Unsupported('np.where')

    def np_einsum(self, args, kw):
        """np.einsum(A, labels, B, labels, out labels) on matrices viewed as tensors of qubit axes"""
        if kw or len(args) < 3 or len(args) % 2 == 0:
            raise Unsupported('einsum')
        ops = []
        for t in range(0, len(args) - 1, 2):
            a = args[t]
            if not (isinstance(a, SymObj) and a.kind == 'tensor' and 'mat' in a.attrs):
                raise Unsupported('einsum operand')
            lab = self.labels(args[t + 1])
            if not self.I.prove(T.eq(lab[0], T.smul(T.const(2), a.attrs['half']))):
                raise Unsupported('einsum: number of labels')
            ops.append((a.attrs['mat'], a.attrs['half'], lab[1], lab[2]))
        n2, bn, bb = self.labels(args[-1])
        e = T.mk('einsumt', tuple(tuple(o) for o in ops), n2, bn, bb, typ='complex')
        return SymObj('tensor', {'einsum': e, 'axes': n2, 'reshape': Builtin('reshape', lambda a, k: self.tensor_reshape(e, n2, a))}, key=('tensor', e.key), fv=e.fv)

    def labels(self, v):
        """(count, binder, body) of a list of integer labels"""
        sg = list(self.L.segs(v))
        if not sg or any(not isinstance(s, SegMap) for s in sg):
            raise Unsupported('einsum labels')
        nm, i = T.newvar('l')
        i = to_int(i)
        cnt = V.seqlen(sg)
        e = pv_int(sg[-1].fn(to_int(T.sub(i, V.seqlen(sg[:-1])))))
        for t in range(len(sg) - 2, -1, -1):
            o = V.seqlen(sg[:t])
            e = T.ite(T.lt(i, T.add(o, sg[t].cnt)), pv_int(sg[t].fn(to_int(T.sub(i, o)))), e)
        bn, bb = T.close([nm], e)
        return cnt, bn, bb

    def tensor_reshape(self, e, axes, args):
        shp = args[0] if len(args) == 1 else tuple(args)
        sg = self.L.segs(shp)
        if not elementwise(sg) or len(sg) != 2:
            raise Unsupported('reshape of a tensor')
        d = [to_int(to_poly(s.v)) for s in sg]
        if d[0].key != d[1].key:
            raise Unsupported('reshape of a tensor')
        h = T.log2(d[0])
        if not self.I.prove(T.eq(T.smul(T.const(2), h), axes)):
            raise Unsupported('reshape of a tensor')
        return Arr(T.mk('einsum', *e.args, shape=(d[0], d[0]), typ='complex').poly())

    def np_ndim(self, args, kw):
        return len(self.arr(args[0]).shape)

    def np_complex(self, args, kw):
        from .libs import TypeV
        return self.L.call_type(TypeV('complex'), args, kw)

    def np_argmax(self, args, kw):
        raise Unsupported('argmax')

    def np_mean(self, args, kw):
        raise Unsupported('mean')

    def np_clip(self, args, kw):
        if kw or len(args) != 3 or not is_num(args[0]):
            raise Unsupported('clip')
        x, lo, hi = [T.as_scalar(to_poly(a)) for a in args]
        r = x
        if args[1] is not None:
            r = T.ite(T.lt(r, lo), lo, r)
        if args[2] is not None:
            r = T.ite(T.lt(hi, r), hi, r)
        return num(Poly(r.terms, (), 'float'))

    def np_arccos(self, args, kw):
        p = T.as_scalar(self.arr(args[0]))
        # outside [-1, 1] the result is nan: a number about which nothing is known
        ok = self.I.decide(T.band(T.le(T.const(-1), p), T.le(p, T.ONE)))
        r = T.mk('arccos' if ok else 'nan', p, typ='real').poly()
        return Poly(r.terms, (), 'float')

    def np_fill_diagonal(self, args, kw):
        raise Unsupported('fill_diagonal')

    # ------------------------------------------------------------ linalg
    def la_expm(self, args, kw):
        v = args[0]
        if isinstance(v, Arr):
            if v.val.shape is not None and len(v.val.shape) != 2:
                raise RaiseSig('ValueError', 'expm')
            return Arr(T.expm(v.val))
        if is_num(v):
            raise Unsupported('expm of a scalar')
        raise Unsupported('expm')

    def la_eigh(self, args, kw):
        H = self.arr(args[0])
        if not T.hermitian(H):
            # LAPACK reads one triangle only: nothing is assumed of the factors
            Sv = T.mk('eighS?', H, shape=(H.shape[0],), typ='real').poly()
            Vv = T.mk('eighV?', H, shape=H.shape).poly()
            return (Arr(Sv), Arr(Vv))
        Sv = T.mk('eigS', H, shape=(H.shape[0],), typ='real').poly()
        Vv = T.mk('eigV', H, shape=H.shape).poly()
        return (Arr(Sv), Arr(Vv))

    def la_svd(self, args, kw):
        U = self.arr(args[0])
        P = T.mk('svdP', U, shape=U.shape, unit=True).poly()
        Q = T.mk('svdQ', U, shape=U.shape, unit=True).poly()
        s = T.mk('svdS', U, shape=(U.shape[0],), typ='real').poly()
        return (Arr(P), Arr(s), Arr(Q))

    def la_norm(self, args, kw):
        p = self.arr(args[0])
        if len(args) == 1 and not kw and len(p.shape) == 2:
            r = T.sqrt(T.trace(T.matmul(T.dagger(p), p)))
            return num(Poly(r.terms, (), 'float'))
        raise Unsupported('norm')

    # ------------------------------------------------------------ random
    def rd_randn(self, args, kw):
        shp = tuple(to_int(to_poly(a)) for a in args)
        k = self.I.rng.s['k']
        lab = self.L.rng_label
        parts = []
        for tag, r0, j in lab:
            parts += [r0, j]
        a = T.mk('rng', tuple(parts) + (k,), shape=shp, typ='real')
        self.I.set(self.I.rng, 'k', to_int(T.add(k, T.ONE)))
        return Arr(a.poly()) if shp else num(a.poly())

    def rd_choice(self, args, kw):
        raise Unsupported('random choice')

    # ------------------------------------------------------------ Vec
    def vec_map(self, v, f):
        out = []
        for s in v.segs:
            if isinstance(s, Seg1):
                out.append(Seg1(f(s.v)))
            elif isinstance(s, SegMap):
                out.append(SegMap(s.cnt, lambda i, s=s: f(s.fn(i))))
            else:
                raise Unsupported('vector')
        return Vec(out)

    def vec_binop(self, op, a, b):
        if isinstance(a, Vec) and is_num(b):
            return self.vec_map(a, lambda x: self.L.binop(op, x, b))
        if isinstance(b, Vec) and is_num(a):
            return self.vec_map(b, lambda x: self.L.binop(op, a, x))
        if isinstance(a, Vec) and isinstance(b, (Vec, PyList)):
            z = self.L.b_zip([SymSeq(a.segs), SymSeq(b.segs)], {})
            if not self.I.prove(T.eq(V.seqlen(a.segs), V.seqlen(b.segs))):
                raise Unsupported('vector lengths')
            return Vec([Seg1(self.L.binop(op, *s.v)) if isinstance(s, Seg1) else SegMap(s.cnt, lambda i, s=s: self.L.binop(op, *s.fn(i))) for s in z.segs])
        raise Unsupported('vector operation')

    def vec_compare(self, op, a, b):
        if isinstance(a, Vec) and is_num(b):
            return self.vec_map(a, lambda x: self.L.compare(op, x, b))
        if isinstance(b, Vec) and is_num(a):
            return self.vec_map(b, lambda x: self.L.compare(op, a, x))
        raise Unsupported('vector comparison')

    def vec_index(self, o, i):
        raise Unsupported('vector index')

    # ------------------------------------------------------------ arrays
    def arr_segs(self, v):
        p = v.val
        k = p.shape[0].int_value()
        if len(p.shape) == 1 and k is not None:
            raise Unsupported('iteration over array')
        raise Unsupported('iteration over array')

    def getitem(self, o, i):
        p = o.val
        if p.shape is None:
            raise Unsupported('indexing array of unknown shape')
        full = lambda s: isinstance(s, slice) and s.start is None and s.stop is None and s.step is None
        if isinstance(i, tuple) and len(i) == 2 and len(p.shape) == 1 and full(i[0]) and i[1] is None:
            o.viewed = True
            return Arr(T.vec_col(p))
        if i is None and len(p.shape) == 1:
            return Arr(T.Poly(T.vec_row(p).terms, (T.ONE, p.shape[0])))
        if full(i):
            return o
        idx = i if isinstance(i, tuple) else (i,)
        if T.scalar_like(p) and p.shape != ():
            if all(isinstance(x, int) and x in (0, -1) for x in idx) and len(idx) <= len(p.shape):
                if len(idx) == len(p.shape):
                    r = Poly(p.terms, (), 'complex')
                    if r.is_real():
                        r.pt = 'npfloat'
                    return num(r)
                return Arr(Poly(p.terms, p.shape[len(idx):]))
            raise RaiseSig('IndexError', 'array index')
        e = T.cmat_entries(p)
        if e is not None and len(idx) == 2 and all(isinstance(x, int) for x in idx):
            return T.const(e[idx[0]][idx[1]])
        if len(idx) == len(p.shape) and all(is_num(x) for x in idx):
            r = T.mk('entry', p, *[to_poly(x) for x in idx]).poly()
            r.pt = 'complex'
            return r
        raise Unsupported('array indexing')

    def setitem(self, o, i, v):
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step is None:
            p = self.arr(v)
            if is_num(v) and p.is_zero():
                self.I.set(o, 'val', Poly({}, o.val.shape))
                return
            if isinstance(v, Arr) and T.dims_eq(p.shape, o.val.shape):
                self.I.set(o, 'val', p)
                return
        if isinstance(i, type(Ellipsis)):
            return self.setitem(o, slice(None, None, None), v)
        raise Unsupported('array store')

    def arr_attr(self, o, a):
        I, L = self.I, self.L
        if isinstance(o, Vec):
            if a == 'tolist':
                return Builtin('tolist', lambda args, kw: PyList(o.segs))
            if a == 'shape':
                return (num(V.seqlen(o.segs)),)
            if a == 'size':
                return num(V.seqlen(o.segs))
            if a == 'copy':
                return Builtin('copy', lambda args, kw: Vec(o.segs))
            if a == 'sum':
                return Builtin('sum', lambda args, kw: L.b_sum([o], {}))
            if a == 'fill':
                def vfill(args, kw):
                    v = args[0]
                    n = V.seqlen(o.segs)
                    I.set(o, 'segs', (SegMap(n, lambda i: v),))
                return Builtin('fill', vfill)
            if a in ('conj', 'conjugate'):
                return Builtin('conj', lambda args, kw: self.np_conj([o], {}))
            raise Unsupported('vector.' + a)
        p = o.val
        if a == 'T':
            return Arr(T.transpose(p))
        if a in ('conj', 'conjugate'):
            return Builtin('conj', lambda args, kw: Arr(T.conj(p)))
        if a == 'transpose':
            return Builtin('transpose', lambda args, kw: Arr(T.transpose(p)))
        if a == 'shape':
            if p.shape is None:
                raise Unsupported('shape unknown')
            return tuple(num(to_int(d)) for d in p.shape)
        if a == 'ndim':
            return len(p.shape)
        if a == 'size':
            r = T.ONE
            for d in p.shape:
                r = T.smul(r, d)
            return num(to_int(r))
        if a == 'imag':
            return Arr(T.imag_part(p))
        if a == 'real':
            return Arr(T.real_part(p))
        if a == 'copy':
            return Builtin('copy', lambda args, kw: Arr(p))
        if a == 'fill':
            def fill(args, kw):
                q = to_poly(args[0])
                if not q.is_zero():
                    raise Unsupported('fill')
                I.set(o, 'val', Poly({}, p.shape))
            return Builtin('fill', fill)
        if a == 'dot':
            return Builtin('dot', lambda args, kw: L.arith(ast.MatMult(), o, args[0]))
        if a == 'trace':
            return Builtin('trace', lambda args, kw: self.np_trace([o], {}))
        if a == 'item':
            def item(args, kw):
                if T.scalar_like(p):
                    return num(Poly(p.terms, (), 'complex'))
                raise RaiseSig('ValueError', 'item')
            return Builtin('item', item)
        if a in ('flatten', 'ravel'):
            def fl(args, kw):
                if len(p.shape) == 1:
                    return Arr(p)
                if len(p.shape) == 2 and T.is_one_dim(p.shape[1]):
                    return Arr(Poly(p.terms, (p.shape[0],)))
                raise Unsupported('flatten')
            return Builtin(a, fl)
        if a == 'reshape':
            return Builtin('reshape', lambda args, kw: self.reshape(o, args))
        if a == 'astype':
            return Builtin('astype', lambda args, kw: Arr(p))
        if a == 'dtype':
            return SymObj('dtype', key='dtype')
        raise Unsupported('array.' + a)

    def reshape(self, o, args):
        p = o.val
        shp = args[0] if len(args) == 1 else tuple(args)
        if isinstance(shp, (tuple, PyList)):
            sg = self.L.segs(shp)
            if elementwise(sg):
                dims = [to_int(to_poly(s.v)) for s in sg]
                if len(dims) == 2 and len(p.shape) == 1:
                    if (dims[0].int_value() == -1 or dims[0].key == p.shape[0].key) and dims[1].int_value() == 1:
                        return Arr(T.vec_col(p))
                if T.dims_eq(tuple(dims), p.shape):
                    return Arr(p)
            elif len(sg) == 1 and isinstance(sg[0], SegMap) and len(p.shape) == 2 and self.L._constfam(sg[0]) == 2:
                # a 2^h x 2^h matrix as a tensor with 2h axes: row bits, then column bits, most significant first
                h = T.log2(p.shape[0])
                if p.shape[0].key == p.shape[1].key and self.I.prove(T.eq(T.smul(T.const(2), h), sg[0].cnt)):
                    return SymObj('tensor', {'mat': p, 'half': to_int(h)}, key=('tensor', p.key), fv=p.fv)
        raise Unsupported('reshape')

    # ------------------------------------------------------------ argmax over dict / list
    def argext(self, src, segs, key, sign):
        """max(iterable, key=f): the first element with the largest key"""
        fams = []
        for s in segs:
            if isinstance(s, Seg1):
                k = self.I.call(key, [s.v], {})
                fams.append((T.ONE, ('none',), to_poly(k), s))
            elif isinstance(s, SegMap):
                nm, j = T.newvar('m')
                j = to_int(j)
                mark = len(self.I.facts)
                self.I.facts += [T.ge0(j), T.lt(j, s.cnt)]
                try:
                    k = self.I.call(key, [s.fn(j)], {})
                finally:
                    del self.I.facts[mark:]
                bn, bb = T.close([nm], to_poly(k))
                fams.append((s.cnt, bn, bb, s))
            else:
                raise Unsupported('max')
        return make_pick(self.L, 'argmax' if sign > 0 else 'argmin', fams)


class Pick:
    """selected element: family number F and index i are opaque, determined by `sel`"""


def make_pick(L, what, fams):
    spec = tuple(T.mk('lam', cnt, bn, bb, typ='real') for cnt, bn, bb, _ in fams)
    sel = T.mk(what + 'sel', spec, typ='int')
    return pick_obj(L, sel, [f[3] for f in fams])


def pick_obj(L, sel, segs):
    """the element of `segs` at the opaque position `sel`"""
    fam = T.mk('fam', sel.poly(), typ='int').poly()
    pos = T.mk('pos', sel.poly(), typ='int').poly()

    def value(fn_of_seg):
        """value at the selected position of a parallel table: pick atom"""
        tbl = []
        shp = None
        for s in segs:
            if isinstance(s, Seg1):
                v = fn_of_seg(s, None)
                p = to_poly(v)
                tbl.append(T.mk('lam', T.ONE, ('none',), p, shape=p.shape))
            else:
                nm, j = T.newvar('m')
                j = to_int(j)
                mark = len(L.I.facts)
                L.I.facts += [T.ge0(j), T.lt(j, s.cnt)]
                try:
                    v = fn_of_seg(s, j)
                finally:
                    del L.I.facts[mark:]
                p = to_poly(v)
                bn, bb = T.close([nm], p)
                tbl.append(T.mk('lam', s.cnt, bn, bb, shape=p.shape))
            if p.shape != ():
                shp = p.shape
        herm = False
        if shp:
            herm = all(T.hermitian(a.args[2]) for a in tbl)
            unit = all(T.poly_unitary(a.args[2]) for a in tbl)
        else:
            unit = False
        at = T.mk('pick', sel.poly(), tuple(tbl), shape=shp or (), typ='complex' if shp else 'real', herm=herm, unit=unit)
        r = at.poly()
        return Arr(r) if shp else r

    def elem(s, j):
        return s.v if j is None else s.fn(j)

    def dictget(d):
        def f(s, j):
            k = elem(s, j)
            r = L.dict_get(d, k)
            if r is UNDEF:
                raise Unsupported('selected key missing')
            return r
        return value(f)

    def getitem(i):
        if i == 0:
            # direction string: only its length / identity as an opaque object
            return SymObj('pickitem', {'len': Poly(value(lambda s, j: L.b_len([elem(s, j)[0]], {})).terms, (), 'int')
                                       if all_str(segs, elem) else None}, key=('pickitem', sel.key, 0))
        raise Unsupported('component of a selected key')
    return SymObj('pickkey', {'dictget': dictget, 'getitem': getitem,
                              'eq': lambda o: _pick_eq(L, sel, segs, elem, o)}, key=('pick', sel.key))


def _pick_eq(L, sel, segs, elem, other):
    raise Unsupported('comparison with a selected key')


def all_str(segs, elem):
    for s in segs:
        nm, j = T.newvar('m')
        e = elem(s, None if isinstance(s, Seg1) else to_int(j))
        if not (isinstance(e, tuple) and isinstance(e[0], str)):
            return False
    return True


def trig(f, p):
    """exact values at multiples of pi/4, parity otherwise"""
    if p.is_zero():
        return T.ONE if f == 'cos' else T.ZERO
    items = list(p.terms.items())
    pik = next(iter(PI.terms))
    k = p.terms.get(pik)
    if len(items) == 1 and k is not None and k.im == 0:
        q = k.re * 4
        if q.denominator == 1:
            m = int(q) % 8
            h = T.smul(T.const(Fraction(1, 2)), T.sqrt(T.const(2)))
            cos = [T.ONE, h, T.ZERO, T.neg(h), T.neg(T.ONE), T.neg(h), T.ZERO, h]
            return cos[m] if f == 'cos' else cos[(m - 2) % 8]
    lead = sorted(items, key=lambda x: T.word_key(x[0]))[0][1]
    neg = lead.re < 0
    q = T.neg(p) if neg else p
    r = T.mk(f, q, typ='real').poly()
    return T.neg(r) if (neg and f == 'sin') else r


def _unpermute(n, name, body):
    """a product over i < n of f(perm(i)) is the product of f(i)"""
    from .libs import PERMS
    i = T.var(name)
    for a in list(S.atoms_of(body).values()):
        if a.kind == 'app' and a.args[0] in PERMS and PERMS[a.args[0]].key == n.key and len(a.args) == 2 and a.args[1].key == i.key:
            nm, x = T.newvar('x')
            b = S.replace_atom(body, a, to_int(x))
            if name not in b.fv:
                return b.subst({nm: to_int(i)})
    return body


T.REINDEX.append(_unpermute)


def pv_int(v):
    return to_int(to_poly(v))


def _atan2_ax(a):
    p = a.poly()
    return [T.lt(T.neg(PI), p), T.le(p, PI)]


def _arccos_ax(a):
    p = a.poly()
    return [T.ge0(p), T.le(p, PI)]


def _pi_ax(a):
    if a.args[0] != 'pi':
        return []
    return [T.lt(T.const(Fraction(314159, 100000)), PI), T.lt(PI, T.const(Fraction(314160, 100000)))]


def _fmod_ax(a):
    r, (x, y) = a.poly(), a.args          # only built for y > 0
    return [T.ge0(r), T.lt(r, y)]


S.AXIOMS['fmod'] = _fmod_ax
S.AXIOMS['atan2'] = _atan2_ax
S.AXIOMS['arccos'] = _arccos_ax
S.AXIOMS['var'] = _pi_ax
