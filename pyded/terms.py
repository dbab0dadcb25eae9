"""Term language and normaliser.

Numbers, vectors and matrices are `Poly`: finite sums  coef * (commuting scalar atoms) * (ordered
matrix atoms), with Gaussian-rational coefficients.  Booleans are `B`.  Every term is immutable and
has a canonical `key`; two terms with the same key denote the same mathematical object.  Machine
arithmetic is treated as exact (stated assumption of every check).
"""
from fractions import Fraction
import hashlib
import itertools


class Unsupported(Exception):
    """The code uses something outside the verifier's subset: undecided, never a violation."""


# ---------------------------------------------------------------- Gaussian rationals
class C:
    __slots__ = ('re', 'im')

    def __init__(self, re=0, im=0):
        self.re = re if type(re) is Fraction else Fraction(re)
        self.im = im if type(im) is Fraction else Fraction(im)

    def __add__(s, o):
        return C(s.re + o.re, s.im + o.im)

    def __sub__(s, o):
        return C(s.re - o.re, s.im - o.im)

    def __mul__(s, o):
        return C(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)

    def inv(s):
        d = s.re * s.re + s.im * s.im
        return C(s.re / d, -s.im / d)

    def conj(s):
        return C(s.re, -s.im)

    def __neg__(s):
        return C(-s.re, -s.im)

    def __eq__(s, o):
        return isinstance(o, C) and s.re == o.re and s.im == o.im

    def __hash__(s):
        return hash((s.re, s.im))

    def zero(s):
        return s.re == 0 and s.im == 0

    def real(s):
        return s.im == 0

    def __repr__(s):
        if s.im == 0:
            return str(s.re)
        return f'({s.re}+{s.im}j)'


C0, C1, CI = C(0), C(1), C(0, 1)


def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported(f'non-finite float {x}')
        return Fraction(repr(x))
    raise Unsupported(f'cannot make a rational of {x!r}')


def const_c(x):
    if isinstance(x, complex):
        return C(frac(x.real), frac(x.imag))
    return C(frac(x))


_key_memo = {}


def short(s):
    if len(s) <= 160:
        return s
    k = _key_memo.get(s)
    if k is None:
        k = '#' + hashlib.sha1(s.encode()).hexdigest()[:20]
        _key_memo[s] = k
    return k


# ---------------------------------------------------------------- generic traversal over args
def t_key(a):
    if isinstance(a, (Poly, Atom, B)):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(t_key(x) for x in a) + ')'
    if isinstance(a, (str, int, Fraction, bool)) or a is None:
        return repr(a)
    if isinstance(a, C):
        return repr(a)
    if hasattr(a, 'key'):
        return a.key
    raise Unsupported(f'no key for {type(a)}')


EMPTY = frozenset()


def t_fv(a):
    if isinstance(a, (Poly, Atom, B)):
        return a.fv
    if isinstance(a, tuple):
        r = EMPTY
        for x in a:
            r = r | t_fv(x)
        return r
    if hasattr(a, 'fv'):
        return a.fv
    return EMPTY


def t_height(a):
    if isinstance(a, (Poly, Atom, B)):
        return a.height
    if isinstance(a, tuple):
        return max([t_height(x) for x in a], default=0)
    if hasattr(a, 'height'):
        return a.height
    return 0


def t_subst(a, m):
    """Substitute variables (name -> Poly) in any term / tuple."""
    if isinstance(a, (Poly, B)):
        return a.subst(m)
    if isinstance(a, Atom):
        return a.subst_poly(m)
    if isinstance(a, tuple):
        return tuple(t_subst(x, m) for x in a)
    if hasattr(a, 'subst'):
        return a.subst(m)
    return a


# ---------------------------------------------------------------- atoms
_intern = {}


class Atom:
    __slots__ = ('kind', 'args', 'shape', 'typ', 'key', 'fv', 'height', 'herm', 'unit', 'info')

    def __repr__(self):
        return pretty_atom(self)

    def poly(self):
        if self.shape == ():
            return Poly({(((self, 1),), ()): C1}, ())
        return Poly({((), ((self, ''),)): C1}, self.shape)

    def subst_poly(self, m):
        if not (self.fv & m.keys()):
            return self.poly()
        return rebuild(self, m)


def mk(kind, *args, shape=(), typ='complex', herm=False, unit=False, info=None):
    """typ: int / real / complex (element type).  herm/unit: assumed facts about a matrix atom."""
    key = short(kind + '[' + ','.join(t_key(a) for a in args) + ']' + ('h' if herm else '') + ('u' if unit else ''))
    a = _intern.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind, a.args, a.shape, a.typ, a.key = kind, args, shape, typ, key
    a.herm, a.unit, a.info = herm, unit, info
    if kind == 'var':
        a.fv = frozenset([args[0]])
    elif kind in BINDERS:
        # args[-2] = tuple of canonical bound variable names, args[-1] = body
        a.fv = t_fv(args[:-2]) | (t_fv(args[-1]) - frozenset(args[-2]))
    else:
        a.fv = t_fv(args)
    a.height = t_height(args) + (1 if kind in BINDERS else 0)
    _intern[key] = a
    return a


BINDERS = {'sum', 'sysdef', 'stop', 'argmax', 'lam', 'forall', 'countif', 'bigprod', 'firstidx', 'maxof', 'ndistinct'}

_fresh = itertools.count()


def fresh_name(prefix):
    return f'{prefix}!{next(_fresh)}'


def var(name, typ='int', shape=(), herm=False, unit=False):
    return mk('var', name, typ, shape=shape, typ=typ, herm=herm, unit=unit).poly()


def close(names, body, tag=''):
    """Rename `names` in body to canonical bound names; returns (bnames, body)."""
    h = t_height(body) + 1
    bn = tuple(f'b{h}_{i}' for i in range(len(names)))
    m = {}
    for n, b in zip(names, bn):
        v = _varinfo(body, n)
        typ, shape = v if v else ('int', ())
        m[n] = var(b, typ, shape)
    return bn, t_subst(body, m)


def _varinfo(body, name):
    for (n, typ), a in list(_vars_index.items()):
        if n == name:
            return a
    return None


_vars_index = {}


def newvar(prefix, typ='int', shape=(), herm=False, unit=False):
    n = fresh_name(prefix)
    _vars_index[(n, typ)] = (typ, shape)
    return n, var(n, typ, shape, herm=herm, unit=unit)


def open_binder(bnames, body, typs=None):
    """Instantiate bound names with fresh variables."""
    names, vs, m = [], [], {}
    for i, b in enumerate(bnames):
        a = _find_bound(body, b)
        typ, shape = a if a else ('int', ())
        n, v = newvar('o', typ, shape)
        names.append(n)
        vs.append(v)
        m[b] = v
    return names, vs, t_subst(body, m)


def _find_bound(t, name):
    seen = set()

    def go(x):
        if isinstance(x, Atom):
            if name not in x.fv or x.key in seen:
                return None
            seen.add(x.key)
            if x.kind == 'var' and x.args[0] == name:
                return (x.typ, x.shape)
            for y in x.args:
                r = go(y)
                if r:
                    return r
            return None
        if isinstance(x, Poly):
            if name not in x.fv:
                return None
            for (sc, ms) in x.terms:
                for a, _ in sc:
                    r = go(a)
                    if r:
                        return r
                for a, _ in ms:
                    r = go(a)
                    if r:
                        return r
            for d in (x.shape or ()):
                r = go(d)
                if r:
                    return r
            return None
        if isinstance(x, B):
            for y in x.args:
                r = go(y)
                if r:
                    return r
            return None
        if isinstance(x, tuple):
            for y in x:
                r = go(y)
                if r:
                    return r
            return None
        if hasattr(x, 'children'):
            return go(x.children())
        return None
    return go(t)


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('terms', 'shape', 'pt', '_key', '_fv', '_h')

    def __init__(self, terms, shape=(), pt=None):
        self.terms = terms
        self.shape = shape      # () scalar, tuple of Poly dims, or None (unknown)
        self.pt = pt            # python type tag for scalars: int/float/complex/bool/npfloat
        self._key = self._fv = self._h = None

    @property
    def key(self):
        if self._key is None:
            items = sorted((word_key(w), repr(c)) for w, c in self.terms.items())
            s = 'P{' + ';'.join(f'{c}*{w}' for w, c in items) + '}'
            if self.shape is None:
                s += '?'
            elif self.shape:
                s += 'm'
            self._key = short(s)
        return self._key

    @property
    def fv(self):
        if self._fv is None:
            r = EMPTY
            for sc, ms in self.terms:
                for a, _ in sc:
                    r = r | a.fv
                for a, _ in ms:
                    r = r | a.fv
            for d in (self.shape or ()):
                r = r | d.fv
            self._fv = r
        return self._fv

    @property
    def height(self):
        if self._h is None:
            h = 0
            for sc, ms in self.terms:
                for a, _ in sc:
                    h = max(h, a.height)
                for a, _ in ms:
                    h = max(h, a.height)
            self._h = h
        return self._h

    def subst(self, m):
        if not (self.fv & m.keys()):
            return self
        shp = self.shape
        if shp:
            shp = tuple(d.subst(m) for d in shp)
        out = Poly({}, shp)
        for (sc, ms), c in self.terms.items():
            p = const(c)
            for a, e in sc:
                p = smul(p, power(a.subst_poly(m), e))
            if ms:
                q = None
                for a, mod in ms:
                    x = apply_mod(a.subst_poly(m), mod)
                    q = x if q is None else matmul_raw(q, x)
                p = scale(p, q)
                p.shape = shp
            else:
                p = Poly(p.terms, shp)
            out = add_raw(out, p)
        out.shape = shp
        out.pt = self.pt
        return collapse(out)

    def is_zero(self):
        return not self.terms

    def const_value(self):
        """Exact C if this is a constant scalar, else None."""
        if not self.terms:
            return C0
        if len(self.terms) == 1:
            (w, c), = self.terms.items()
            if w == ((), ()) and self.shape == ():
                return c
        return None

    def int_value(self):
        c = self.const_value()
        if c is not None and c.im == 0 and c.re.denominator == 1:
            return int(c.re)
        return None

    def is_int(self):
        if self.shape != ():
            return False
        for (sc, ms), c in self.terms.items():
            if c.im != 0:
                return False
            if c.re.denominator != 1 and self.pt != 'int':
                return False
            for a, e in sc:
                if a.typ != 'int' or e < 0:
                    return False
        return True

    def is_real(self):
        if self.shape != ():
            return False
        return self.key == conj(self).key

    def __repr__(self):
        return pretty(self)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key


def word_key(w):
    sc, ms = w
    return '.'.join(f'{a.key}^{e}' if e != 1 else a.key for a, e in sc) + '|' + '@'.join(a.key + m for a, m in ms)


def const(c, pt=None):
    if not isinstance(c, C):
        if pt is None:
            pt = {bool: 'bool', int: 'int', float: 'float', complex: 'complex'}.get(type(c))
        c = const_c(c)
    return Poly({} if c.zero() else {((), ()): c}, (), pt)


ZERO, ONE = const(0), const(1)


def add_raw(a, b):
    t = dict(a.terms)
    for w, c in b.terms.items():
        n = t.get(w, C0) + c
        if n.zero():
            t.pop(w, None)
        else:
            t[w] = n
    return Poly(t, a.shape)


def dims_eq(a, b):
    if a is None or b is None:
        return True
    return len(a) == len(b) and all(x.key == y.key for x, y in zip(a, b))


def is_one_dim(d):
    return d.int_value() == 1


def scalar_like(p):
    return p.shape == () or (p.shape is not None and p.shape != () and all(is_one_dim(d) for d in p.shape))


def as_scalar(p):
    """View a 1x1 array as a scalar."""
    if p.shape == ():
        return p
    q = Poly(dict(p.terms), ())
    return q


def with_shape(p, shape):
    return Poly(p.terms, shape, p.pt)


_pt_order = {'bool': 0, 'int': 1, 'float': 2, 'npfloat': 2, 'complex': 3}


def join_pt(a, b, div=False):
    if a is None or b is None:
        return None
    r = a if _pt_order[a] >= _pt_order[b] else b
    if r == 'bool':
        r = 'int'
    if div and r == 'int':
        r = 'float'
    return r


def add(a, b):
    """numpy/python addition with scalar broadcasting."""
    if a.shape == () and b.shape == ():
        r = add_raw(a, b)
        r.pt = join_pt(a.pt, b.pt)
        return r
    if a.is_zero() and scalar_like(a):
        return b
    if b.is_zero() and scalar_like(b):
        return a
    if a.shape is None or b.shape is None:
        r = add_raw(a, b)
        r.shape = a.shape if b.shape is None else b.shape
        return r
    if len(a.shape) == len(b.shape) and all_dims_same(a.shape, b.shape):
        return add_raw(a, b)
    if scalar_like(a) and scalar_like(b):
        r = add_raw(as_scalar(a), as_scalar(b))
        r.shape = a.shape if len(a.shape) >= len(b.shape) else b.shape
        return r
    raise Unsupported('broadcasting addition of different shapes')


def all_dims_same(s, t):
    return all(x.key == y.key for x, y in zip(s, t))


def neg(a):
    r = Poly({w: -c for w, c in a.terms.items()}, a.shape, a.pt if a.pt != 'bool' else 'int')
    return r


def sub(a, b):
    return add(a, neg(b))


def merge_scal(s1, s2):
    d = {}
    for a, e in s1:
        d[a.key] = [a, e]
    for a, e in s2:
        if a.key in d:
            d[a.key][1] += e
        else:
            d[a.key] = [a, e]
    c = C1
    out = []
    for k in sorted(d):
        a, e = d[k]
        if e == 0:
            continue
        if a.kind == 'sqrt' and abs(e) >= 2:
            base = a.args[0].const_value()
            if base is not None and base.im == 0:
                q = int(e / 2)
                f = base if q > 0 else base.inv()
                for _ in range(abs(q)):
                    c = c * f
                e -= 2 * q
                if e == 0:
                    continue
        out.append((a, e))
    return tuple(out), c


def smul(a, b):
    """product of two scalars"""
    t = {}
    for (s1, _), c1 in a.terms.items():
        for (s2, _), c2 in b.terms.items():
            s, cc = merge_scal(s1, s2)
            w = (s, ())
            n = t.get(w, C0) + c1 * c2 * cc
            if n.zero():
                t.pop(w, None)
            else:
                t[w] = n
    return Poly(t, (), join_pt(a.pt, b.pt))


def scale(s, m):
    """scalar (Poly of shape ()) times array"""
    t = {}
    for (s1, _), c1 in s.terms.items():
        for (s2, ms), c2 in m.terms.items():
            sc, cc = merge_scal(s1, s2)
            w = (sc, ms)
            n = t.get(w, C0) + c1 * c2 * cc
            if n.zero():
                t.pop(w, None)
            else:
                t[w] = n
    return Poly(t, m.shape)


def mul(a, b):
    """elementwise * with scalar broadcasting"""
    if a.shape == () and b.shape == ():
        return smul(a, b)
    if scalar_like(a) and scalar_like(b):
        r = smul(as_scalar(a), as_scalar(b))
        r.shape = a.shape if len(a.shape) >= len(b.shape) else b.shape
        r.pt = None
        return r
    if scalar_like(a):
        return scale(as_scalar(a), b)
    if scalar_like(b):
        return scale(as_scalar(b), a)
    if a.shape is None and b.shape == () or b.shape is None and a.shape == ():
        return scale(a, b) if a.shape == () else scale(b, a)
    if a.shape is None or b.shape is None:
        raise Unsupported('product with array of unknown shape')
    # Hadamard product: commutative opaque atom
    x, y = sorted([a, b], key=lambda p: p.key)
    return mk('hadamard', x, y, shape=a.shape).poly()


def inverse(b):
    if b.shape != ():
        if scalar_like(b):
            return with_shape(inverse(as_scalar(b)), b.shape)
        raise Unsupported('division by an array')
    if len(b.terms) == 1:
        ((sc, _), c), = b.terms.items()
        return Poly({(tuple((a, -e) for a, e in sc), ()): c.inv()}, (), None)
    if not b.terms:
        raise Unsupported('division by zero')
    # factor out leading coefficient for canonicity
    lead = sorted(b.terms.items(), key=lambda x: word_key(x[0]))[0][1]
    nb = Poly({w: c * lead.inv() for w, c in b.terms.items()}, ())
    typ = 'real' if nb.is_real() else 'complex'
    return smul(const(lead.inv()), mk('inv', nb, typ=typ).poly())


def div(a, b):
    r = mul(a, inverse(b))
    if r.shape == ():
        r.pt = join_pt(a.pt, b.pt, div=True)
    return r


def power(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return power(inverse(a), -n)
    r = a
    for _ in range(n - 1):
        r = smul(r, a)
    return r


# ---------------------------------------------------------------- matrices
def toggle_T(m):
    return {'': 'T', 'T': '', '*': 'H', 'H': '*'}[m]


def toggle_conj(m):
    return {'': '*', '*': '', 'T': 'H', 'H': 'T'}[m]


PUSH = {'expm', 'kron', 'embed', 'cmat', 'ite', 'sum', 'diag', 'expel'}


def norm_mod(a, mod):
    """normalise (atom, mod) -> Poly"""
    if mod == '':
        return None
    if a.herm:
        mod = {'H': '', 'T': '*'}.get(mod, mod)
    if a.typ in ('real', 'int'):
        mod = {'*': '', 'H': 'T'}.get(mod, mod)
    return mod


def apply_mod(p, mod):
    if mod == 'H':
        return dagger(p)
    if mod == 'T':
        return transpose(p)
    if mod == '*':
        return conj(p)
    return p


def atom_T(a, mod):
    """Transpose of atom-with-mod, as Poly."""
    return _atom_mod(a, toggle_T(mod), 'T')


def _pushed(a, which):
    f = {'T': transpose, '*': conj}[which]
    k = a.kind
    if k == 'expm':
        return expm(f(a.args[0]))
    if k == 'kron':
        return kron(f(a.args[0]), f(a.args[1]))
    if k == 'embed':
        op, rest = a.args[0], a.args[1:]
        return mk('embed', f(op), *rest, shape=a.shape).poly()
    if k == 'cmat':
        return cmat_map(a, which)
    if k == 'ite':
        return ite(a.args[0], f(a.args[1]), f(a.args[2]))
    if k == 'sum':
        n, bn, body = a.args
        names, vs, b = open_binder(bn, body)
        return bigsum(n, names[0], f(b))
    if k == 'diag':
        return a.poly() if which == 'T' else diag(conj(a.args[0]))
    if k == 'expel':
        if which == '*':
            return mk('expel', conj(a.args[0]), shape=a.shape).poly()
        return None
    return None


def _atom_mod(a, mod, which):
    # a had some mod; new mod computed.  PUSH atoms always carry mod ''.
    if a.kind in PUSH:
        r = _pushed(a, which)
        if r is not None:
            return r
    m = norm_mod(a, mod) if mod else ''
    m = m or ''
    shp = a.shape
    return Poly({((), ((a, m),)): C1}, shp)


def transpose(p):
    if p.shape == () or (p.shape is not None and len(p.shape) == 1):
        return p
    shp = p.shape if p.shape is None else (p.shape[1], p.shape[0])
    return _map_words(p, 'T', shp)


def _map_words(p, which, shp):
    out = Poly({}, shp)
    for (sc, ms), c in p.terms.items():
        if which == 'T':
            s = Poly({(sc, ()): c}, ())
            seq = [(a, toggle_T(m)) for a, m in reversed(ms)]
        else:
            s = conj(Poly({(sc, ()): c}, ()))
            seq = [(a, toggle_conj(m)) for a, m in ms]
        if ms:
            q = None
            for (a, m) in seq:
                x = _atom_mod(a, m, which)
                q = x if q is None else matmul_raw(q, x)
            r = scale(s, q)
        else:
            r = Poly(s.terms, shp)
        out = add_raw(out, r)
    out.shape = shp
    return out


def conj(p):
    if p.shape == ():
        out = Poly({}, ())
        for (sc, _), c in p.terms.items():
            r = const(c.conj())
            for a, e in sc:
                r = smul(r, power(conj_atom(a), e))
            out = add_raw(out, r)
        out.pt = p.pt
        return out
    return _map_words(p, '*', p.shape)


def dagger(p):
    return transpose(conj(p))


def conj_atom(a):
    if a.typ in ('int', 'real'):
        return a.poly()
    if a.kind == 'ip':
        ms = [(x, toggle_conj(toggle_T(m))) for x, m in reversed(a.args[0])]
        q = None
        for (x, m) in ms:
            y = _atom_mod2(x, m)
            q = y if q is None else matmul_raw(q, y)
        q.shape = (ONE, ONE)
        return as_scalar(collapse(q))
    if a.kind == 'conj':
        return a.args[0]
    if a.kind == 'sum':
        n, bn, body = a.args
        names, vs, b = open_binder(bn, body)
        return bigsum(n, names[0], conj(b))
    if a.kind == 'ite':
        return ite(a.args[0], conj(a.args[1]), conj(a.args[2]))
    if a.kind == 'trace':
        return trace(dagger(a.args[0]))
    if a.kind == 'expel':
        return expel(conj(a.args[0]))
    return mk('conj', a.poly()).poly()


def _atom_mod2(a, m):
    """(atom, fully toggled H-mod)"""
    if a.kind in PUSH:
        r = _pushed(a, '*')
        if r is not None:
            return transpose(r) if a.shape is None or len(a.shape) == 2 else Poly({w: c for w, c in r.terms.items()}, r.shape)
    mm = norm_mod(a, m) if m else ''
    return Poly({((), ((a, mm or ''),)): C1}, a.shape)


def matmul_raw(a, b):
    """concatenate words; no shape checks"""
    t = {}
    for (s1, m1), c1 in a.terms.items():
        for (s2, m2), c2 in b.terms.items():
            sc, cc = merge_scal(s1, s2)
            for (ms, extra) in norm_mats(m1 + m2):
                w = (sc, ms)
                n = t.get(w, C0) + c1 * c2 * cc * extra
                if n.zero():
                    t.pop(w, None)
                else:
                    t[w] = n
    return Poly(t, None)


def norm_mats(ms):
    """normalise a product of matrix atoms; returns list of (mats, coef)"""
    ms = list(ms)
    changed = True
    while changed:
        changed = False
        for i in range(len(ms) - 1):
            (a, ma), (b, mb) = ms[i], ms[i + 1]
            if a.kind == 'cmat' and b.kind == 'cmat':
                p = cmat_mul(a, b)
                res = []
                for (sc, mm), c in p.terms.items():
                    for (m2, c2) in norm_mats(tuple(ms[:i]) + mm + tuple(ms[i + 2:])):
                        res.append((m2, c * c2))
                return res
            if is_inverse_pair(a, ma, b, mb):
                del ms[i:i + 2]
                changed = True
                break
            if i + 2 < len(ms):
                (c_, mc) = ms[i + 2]
                r = eig_pattern(a, ma, b, mb, c_, mc)
                if r is not None:
                    ms[i:i + 3] = [(r, '')]
                    changed = True
                    break
    return [(tuple(ms), C1)]


def is_inverse_pair(a, ma, b, mb):
    if a.kind == 'expm' and b.kind == 'expm':
        s = add_raw(a.args[0], b.args[0])
        return s.is_zero()
    if a.key == b.key and {ma, mb} in ({'', 'H'}, {'T', '*'}) and atom_unitary(a):
        return True
    if a.key == b.key and ma == mb and ma in ('',) and a.herm and atom_unitary(a):
        return True
    if a.kind == 'embed' and b.kind == 'embed' and a.args[1:] == b.args[1:] or \
            (a.kind == 'embed' and b.kind == 'embed' and t_key(a.args[1:]) == t_key(b.args[1:])):
        pa, pb = a.args[0], b.args[0]
        if len(pa.terms) == 1 and len(pb.terms) == 1:
            r = matmul_raw(pa, pb)
            return list(r.terms.items()) == [(((), ()), C1)]
    return False


def eig_pattern(a, ma, b, mb, c, mc):
    if a.kind == 'eigV' and c.kind == 'eigV' and a.key == c.key and ma == '' and mc == 'H' and b.kind == 'diag':
        H = a.args[0]
        v = b.args[0]
        # v = exp(coef * S)  or  v = coef*S
        if len(v.terms) == 1:
            ((sc, mm), cc), = v.terms.items()
            if len(mm) == 1 and mm[0][0].kind == 'expel' and sc == () and cc == C1:
                e = mm[0][0].args[0]
                f = linear_in_eigs(e, H)
                if f is not None:
                    return expm_atom(scale(f, H))
    return None


def linear_in_eigs(e, H):
    """e = s * S(H) for a scalar s: return s"""
    tot = ZERO
    for (sc, mm), c in e.terms.items():
        if len(mm) == 1 and mm[0][0].kind == 'eigS' and mm[0][0].args[0].key == H.key and mm[0][1] in ('', '*'):
            tot = add_raw(tot, Poly({(sc, ()): c}, ()))
        else:
            return None
    return tot


def collapse(p):
    """after a product: a 1x1 result is a scalar made of inner-product atoms"""
    if p.shape is None or p.shape == () or not all(is_one_dim(d) for d in p.shape):
        return p
    out = {}
    for (sc, ms), c in p.terms.items():
        if ms:
            a, k = mk_ip(ms)
            if a is None:
                s, cc = sc, C1
                c = c * k
            else:
                s, cc = merge_scal(sc, ((a, 1),))
        else:
            s, cc = sc, C1
        w = (s, ())
        n = out.get(w, C0) + c * cc
        if n.zero():
            out.pop(w, None)
        else:
            out[w] = n
    return Poly(out, p.shape, p.pt)


def mk_ip(ms):
    if len(ms) == 2 and ms[0][0].key == ms[1][0].key and ms[0][0].info == 'unitvec' and ms[0][1] in ('H', 'T') and ms[1][1] in ('',):
        return None, C1
    if len(ms) == 1 and ms[0][0].kind == 'cmat':
        ent = ms[0][0].args[0]
        return None, ent[0][0]
    a = mk('ip', _ms_args(ms))
    # real if equal to own conjugate
    return a, C1


def _ms_args(ms):
    return tuple((a, m) for a, m in ms)


def matmul(a, b):
    if a.shape == () or b.shape == ():
        raise Unsupported('matmul with scalar')
    if a.shape is None or b.shape is None:
        r = matmul_raw(a, b)
        r.shape = None
        return r
    la, lb = len(a.shape), len(b.shape)
    if la > 2 or lb > 2:
        raise Unsupported('matmul of tensors')
    x = a if la == 2 else vec_row(a)
    y = b
    inner_a = a.shape[-1]
    inner_b = b.shape[0]
    if inner_a.key != inner_b.key:
        raise ShapeMismatch(inner_a, inner_b)
    # 1x1 factors behave like scalars
    if la == 2 and scalar_like(a):
        r = scale(as_scalar(a), Poly(b.terms, b.shape))
    elif lb == 2 and scalar_like(b):
        r = scale(as_scalar(b), a)
    else:
        r = matmul_raw(x, y)
    shp = ()
    if la == 2:
        shp += (a.shape[0],)
    if lb == 2:
        shp += (b.shape[1],)
    if shp == ():
        q = Poly(r.terms, (ONE, ONE))
        return as_scalar(collapse(q))
    if la == 1:
        r = _map_words(Poly(r.terms, None), 'T', None)      # 1-d results are kept as columns
    r.shape = shp
    return collapse(r)


class ShapeMismatch(Exception):
    def __init__(self, a, b):
        self.a, self.b = a, b


def vec_row(v):
    """1-d vector used as a row (no conjugation)"""
    return _map_words(Poly(v.terms, None), 'T', None)


def vec_col(v):
    return Poly(v.terms, (v.shape[0], ONE))


def outer(a, b):
    r = matmul_raw(Poly(a.terms, None), vec_row(b))
    r.shape = (a.shape[0], b.shape[0])
    return r


# constant matrices -------------------------------------------------
def cmat(rows):
    """rows: list of lists of C"""
    ent = tuple(tuple(r) for r in rows)
    n, m = len(ent), len(ent[0])
    if n == m and all(ent[i][j] == (C1 if i == j else C0) for i in range(n) for j in range(m)):
        return Poly({((), ()): C1}, (const(n), const(n)))
    if all(x.zero() for r in ent for x in r):
        return Poly({}, (const(n), const(m)))
    # normalise by leading entry so that scalar multiples share an atom
    lead = next(x for r in ent for x in r if not x.zero())
    li = lead.inv()
    ent = tuple(tuple(x * li for x in r) for r in ent)
    key = tuple(tuple(repr(x) for x in r) for r in ent)
    n_, m_ = const(n), const(m)
    herm = n == m and all(ent[i][j] == ent[j][i].conj() for i in range(n) for j in range(m))
    a = mk('cmat', key, shape=(n_, m_), herm=herm)
    a.info = ent
    unit = False
    if n == m:
        unit = True
        for i in range(n):
            for j in range(n):
                s = C0
                for k in range(n):
                    s = s + ent[i][k] * ent[j][k].conj()
                if s != (C1 if i == j else C0):
                    unit = False
    a.unit = unit
    return Poly({((), ((a, ''),)): lead}, (n_, m_))


def entry_matrix(rows):
    """matrix of fixed shape with scalar terms as entries: sum of entry * E_ij"""
    n, m = len(rows), len(rows[0])
    out = Poly({}, (const(n), const(m)))
    for i in range(n):
        for j in range(m):
            E = cmat([[C1 if (a, b) == (i, j) else C0 for b in range(m)] for a in range(n)])
            out = add(out, scale(rows[i][j], E)) if not rows[i][j].is_zero() else out
    return Poly(out.terms, (const(n), const(m)))


def sym_entries(p):
    """entries (scalar terms) of a matrix that is a combination of constant matrices, else None"""
    if not p.shape or len(p.shape) != 2:
        return None
    n, m = p.shape[0].int_value(), p.shape[1].int_value()
    if n is None or m is None:
        return None
    tot = [[ZERO] * m for _ in range(n)]
    for (sc, ms), c in p.terms.items():
        if ms == ():
            e = [[C1 if i == j else C0 for j in range(m)] for i in range(n)]
        elif len(ms) == 1 and ms[0][0].kind == 'cmat' and ms[0][1] == '':
            e = ms[0][0].info
        else:
            return None
        for i in range(n):
            for j in range(m):
                if not e[i][j].zero():
                    tot[i][j] = add(tot[i][j], Poly({(sc, ()): c * e[i][j]}, ()))
    return tot


def cmat_entries(p):
    """exact entries if p is a constant matrix of constant shape, else None"""
    if not p.shape or len(p.shape) != 2:
        return None
    n, m = p.shape[0].int_value(), p.shape[1].int_value()
    if n is None or m is None or n * m > 4096:
        return None
    tot = [[C0] * m for _ in range(n)]
    for (sc, ms), c in p.terms.items():
        if sc:
            return None
        if ms == ():
            for i in range(n):
                tot[i][i] = tot[i][i] + c
        elif len(ms) == 1 and ms[0][0].kind == 'cmat':
            e = ms[0][0].info
            for i in range(n):
                for j in range(m):
                    tot[i][j] = tot[i][j] + c * e[i][j]
        else:
            return None
    return tot


_CMEMO = {}


def _memo(key, f):
    r = _CMEMO.get(key)
    if r is None:
        r = _CMEMO[key] = f()
    return Poly(dict(r.terms), r.shape)


def cmat_map(a, which):
    e = a.info
    if which == 'T':
        return _memo((a.key, 'T'), lambda: cmat([[e[i][j] for i in range(len(e))] for j in range(len(e[0]))]))
    return _memo((a.key, '*'), lambda: cmat([[x.conj() for x in r] for r in e]))


def cmat_mul(a, b):
    return _memo((a.key, b.key), lambda: cmat_mul_(a, b))


def cmat_mul_(a, b):
    x, y = a.info, b.info
    n, k, m = len(x), len(y), len(y[0])
    return cmat([[_csum(x[i][t] * y[t][j] for t in range(k)) for j in range(m)] for i in range(n)])


def _csum(it):
    s = C0
    for x in it:
        s = s + x
    return s


def normalise_const(p):
    """fold a constant-matrix polynomial into a single cmat"""
    e = cmat_entries(p)
    if e is None:
        return p
    return cmat(e)


def eye(n):
    return Poly({((), ()): C1}, (n, n))


def kron(a, b):
    if a.shape == () and a.const_value() is not None:
        return scale(a, b)
    if a.shape is not None and b.shape is not None and len(a.shape) == 2 and len(b.shape) == 2:
        ea, eb = cmat_entries(a), cmat_entries(b)
        if ea is not None and eb is not None:
            return cmat([[ea[i // len(eb)][j // len(eb[0])] * eb[i % len(eb)][j % len(eb[0])]
                          for j in range(len(ea[0]) * len(eb[0]))] for i in range(len(ea) * len(eb))])
        shp = (smul(a.shape[0], b.shape[0]), smul(a.shape[1], b.shape[1]))
    else:
        shp = None
    return mk('kron', a, b, shape=shp).poly()


def expm_atom(A):
    """A square matrix Poly; unitary iff anti-Hermitian"""
    return mk('expm', A, shape=A.shape)


def expm(A):
    if A.is_zero():
        return eye(A.shape[0]) if A.shape else ONE
    if A.shape == ():
        raise Unsupported('expm of scalar')
    return expm_atom(A).poly()


def anti_hermitian(A):
    return add_raw(A, dagger(A)).is_zero()


def hermitian(A):
    return add_raw(A, neg(dagger(A))).is_zero()


def atom_unitary(a):
    if a.unit:
        return True
    k = a.kind
    if k == 'expm':
        return anti_hermitian(a.args[0])
    if k == 'embed':
        return poly_unitary(a.args[0])
    if k == 'kron':
        return poly_unitary(a.args[0]) and poly_unitary(a.args[1])
    if k == 'ite':
        return poly_unitary(a.args[1]) and poly_unitary(a.args[2])
    if k == 'eigV':
        return hermitian(a.args[0])
    if k == 'sys':
        return sys_unitary(a)
    return False


def sys_unitary(a):
    """inductive: every component of matrix type of the system is unitary when started/iterated"""
    sysd, which, cnt = a.args
    memo = SYS_UNIT.get((sysd.key, which))
    if memo is not None:
        return memo
    SYS_UNIT[(sysd.key, which)] = False
    r = SYS_UNITARY_HOOK(sysd, which) if SYS_UNITARY_HOOK else False
    SYS_UNIT[(sysd.key, which)] = r
    return r


SYS_UNIT = {}
SYS_UNITARY_HOOK = None


def poly_unitary(p):
    if len(p.terms) != 1:
        return False
    ((sc, ms), c), = p.terms.items()
    if sc or not (c * c.conj() == C1):
        return False
    return all(atom_unitary(a) for a, _ in ms)


def diag(v):
    return mk('diag', v, shape=(v.shape[0], v.shape[0])).poly()


def expel(p):
    if p.shape == ():
        if p.is_zero():
            return ONE
        return mk('expel', p, typ='real' if p.is_real() else 'complex').poly()
    return mk('expel', p, shape=p.shape).poly()


def trace(p):
    """linear"""
    e = cmat_entries(p)
    if e is not None:
        return const(_csum(e[i][i] for i in range(len(e))))
    e = sym_entries(p)
    if e is not None:
        out = ZERO
        for i in range(len(e)):
            out = add(out, e[i][i])
        return out
    out = ZERO
    for (sc, ms), c in p.terms.items():
        if not ms:
            t = p.shape[0]
        else:
            # rank-one: cyclic to inner product
            t = None
            for i, (a, m) in enumerate(ms):
                if a.shape is not None and a.shape and (len(a.shape) == 1 or is_one_dim(a.shape[1] if len(a.shape) == 2 else a.shape[0])) and m in ('H', 'T'):
                    rot = ms[i:] + ms[:i]
                    q = Poly({((), rot): C1}, (ONE, ONE))
                    t = as_scalar(collapse(q))
                    break
            if t is None:
                best = min((ms[i:] + ms[:i] for i in range(len(ms))), key=lambda r: word_key(((), r)))
                t = mk('trace', Poly({((), best): C1}, p.shape)).poly()
        out = add_raw(out, smul(Poly({(sc, ()): c}, ()), t))
    return out


def real_part(p):
    r = scale(const(Fraction(1, 2)), Poly(add_raw(p, conj(p)).terms, p.shape)) if p.shape != () else \
        smul(const(Fraction(1, 2)), add_raw(p, conj(p)))
    r.shape = p.shape
    return r


def imag_part(p):
    h = C(0, Fraction(-1, 2))
    d = add_raw(p, neg(conj(p)))
    r = Poly({w: c * h for w, c in d.terms.items()}, p.shape)
    return r


def absval(p):
    c = p.const_value()
    if c is not None and c.im == 0:
        return const(abs(c.re))
    if p.shape == ():
        # |lam*q| = |lam| |q| : normalise the overall sign
        items = sorted(p.terms.items(), key=lambda x: word_key(x[0]))
        lead = items[0][1]
        if lead.im == 0 and lead.re < 0 or (lead.im != 0 and (lead.im < 0)):
            p = neg(p)
        if len(p.terms) == 1:
            ((sc, _), c), = p.terms.items()
            if len(sc) == 1 and sc[0][0].kind == 'abs' and c.im == 0:
                return smul(const(abs(c.re)), Poly({(sc, ()): C1}, ()))
    return mk('abs', p, shape=p.shape, typ='real').poly()


def sqrt(p):
    c = p.const_value()
    if c is not None and c.im == 0 and c.re >= 0:
        import math
        n, d = c.re.numerator, c.re.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return const(Fraction(rn, rd))
    return mk('sqrt', p, typ='real' if p.is_real() else 'complex').poly()


def pow2(n):
    """2**n for an integer Poly"""
    v = n.int_value()
    if v is not None:
        return const(Fraction(2) ** v, 'int' if v >= 0 else 'float')
    t = dict(n.terms)
    c = t.pop(((), ()), C0)
    k = int(c.re)
    rest = Poly(t, ())
    # 2**(2*n) -> (2**n)^2 for single integer multiples
    r = None
    if len(t) == 1:
        (w, cc), = t.items()
        m = int(cc.re)
        if abs(m) != 1 and m != 0:
            r = power(mk('pow2', Poly({w: C1}, ()), typ='int').poly(), m)
    if r is None:
        r = mk('pow2', rest, typ='int').poly()
    r = smul(const(Fraction(2) ** k), r)
    r.pt = 'int'
    return r


def log2(p):
    """log2 of a product of powers of two"""
    if len(p.terms) == 1:
        ((sc, _), c), = p.terms.items()
        if c.im == 0 and c.re > 0:
            k, f = 0, c.re
            while f.denominator == 1 and f.numerator % 2 == 0 and f > 1:
                f /= 2
                k += 1
            while f.denominator % 2 == 0:
                f *= 2
                k -= 1
            if f == 1 and all(a.kind == 'pow2' for a, _ in sc):
                r = const(k)
                for a, e in sc:
                    r = add_raw(r, smul(const(e), a.args[0]))
                return r
    return mk('log2', p, typ='real').poly()


# ---------------------------------------------------------------- binders
REINDEX = []          # functions (n, name, body) -> body: canonical order of commutative products


def bigprod(n, name, body):
    """prod_{name=0}^{n-1} body (scalars)"""
    for f in REINDEX:
        body = f(n, name, body)
    if len(body.terms) == 1:
        ((sc, ms), c), = body.terms.items()
        if len(sc) + (c != C1) > 1:
            out = ONE
            for a, e in sc:
                for _ in range(e):
                    out = smul(out, bigprod(n, name, a.poly()))
            return smul(out, bigprod(n, name, const(c))) if c != C1 else out
        if not sc and c == C1:
            return ONE
        if len(sc) == 1 and sc[0][1] > 1 and c == C1:
            return power(bigprod(n, name, sc[0][0].poly()), sc[0][1])
    bn, bb = close([name], body)
    return mk('bigprod', n, bn, bb, typ='real' if body.is_real() else 'complex').poly()


def bigsum(n, name, body, hook=None):
    """sum_{name=0}^{n-1} body   (body a Poly; scalars or arrays)"""
    iv = n.int_value()
    if iv is not None and iv <= 0:
        return Poly({}, body.shape)
    if iv is not None and iv <= 16:
        r = Poly({}, body.shape)
        for j in range(iv):
            r = add_raw(r, body.subst({name: const(j)}))
        r.shape = body.shape
        return r
    out = Poly({}, body.shape)
    for (sc, ms), c in body.terms.items():
        inv_sc = tuple((a, e) for a, e in sc if name not in a.fv)
        var_sc = tuple((a, e) for a, e in sc if name in a.fv)
        # pull constant matrices out on both sides
        i = 0
        while i < len(ms) and name not in ms[i][0].fv:
            i += 1
        j = len(ms)
        while j > i and name not in ms[j - 1][0].fv:
            j -= 1
        left, mid, right = ms[:i], ms[i:j], ms[j:]
        if not var_sc and not mid:
            core = Poly(n.terms, ())
            t = smul(Poly({(inv_sc, ()): c}, ()), core)
            r = t if not ms else scale(t, Poly({((), ms): C1}, body.shape))
            if not ms and body.shape != ():
                r = Poly(t.terms, body.shape)
            out = add_raw(out, r)
            continue
        cshape = () if not mid else (mid_shape(mid) if mid else ())
        if not mid:
            b = Poly({(var_sc, ()): C1}, ())
            a = sum_atom(n, name, b)
            t = smul(Poly({(inv_sc, ()): c}, ()), a.poly())
            r = t if not ms else scale(t, Poly({((), ms): C1}, body.shape))
            if not ms and body.shape != ():
                r = Poly(t.terms, body.shape)
        else:
            b = Poly({(var_sc, mid): C1}, cshape)
            a = sum_atom(n, name, b)
            q = None
            for part in (left, ((a, ''),), right):
                if part:
                    x = Poly({((), part): C1}, None)
                    q = x if q is None else matmul_raw(q, x)
            r = scale(Poly({(inv_sc, ()): c}, ()), q)
        out = add_raw(out, r)
    out.shape = body.shape
    return out


def mid_shape(mid):
    a, m = mid[0]
    b, m2 = mid[-1]
    if a.shape is None or b.shape is None:
        return None
    r = a.shape[0] if m in ('', '*') else (a.shape[1] if len(a.shape) == 2 else ONE)
    if len(b.shape) == 1:
        c = ONE if m2 in ('', '*') else b.shape[0]
        return (r,) if c is ONE and m2 in ('', '*') else (r, c)
    c = b.shape[1] if m2 in ('', '*') else b.shape[0]
    return (r, c)


SEMANTIC_HOOK = None    # set by solve: canonical representative of a binder atom


def sum_atom(n, name, body):
    bn, b = close([name], body)
    typ = 'complex'
    if body.shape == ():
        typ = 'int' if body.is_int() else ('real' if body.is_real() else 'complex')
    herm = body.shape not in ((), None) and len(body.shape) == 2 and _safe_herm(body)
    a = mk('sum', n, bn, b, shape=body.shape, typ=typ, herm=herm)
    if SEMANTIC_HOOK:
        a = SEMANTIC_HOOK(a)
    return a


def _safe_herm(b):
    try:
        return hermitian(b)
    except Unsupported:
        return False


def ite(c, a, b):
    if c.kind == 'true':
        return a
    if c.kind == 'false':
        return b
    if a.key == b.key and dims_same(a, b):
        return a
    if c.kind == 'not':
        c, a, b = c.args[0], b, a
    ia, ib = single_ite(a), single_ite(b)
    if ia is not None:
        if ia[2].key == b.key:
            return ite(band(c, ia[0]), ia[1], b)
        if ia[1].key == b.key:
            return ite(band(c, bnot(ia[0])), ia[2], b)
        if ia[0].key == c.key:
            return ite(c, ia[1], b)
    if ib is not None:
        if ib[1].key == a.key:
            return ite(bor(c, ib[0]), a, ib[2])
        if ib[2].key == a.key:
            return ite(bor(c, bnot(ib[0])), a, ib[1])
        if ib[0].key == c.key:
            return ite(c, a, ib[2])
    nc = bnot(c)
    if nc.kind != 'not' and (c.kind == 'not' or nc.key < c.key):
        c, a, b = nc, b, a
    typ = 'complex'
    shp = a.shape if a.shape is not None else b.shape
    if a.shape == () and b.shape == ():
        if a.is_int() and b.is_int():
            typ = 'int'
        elif a.is_real() and b.is_real():
            typ = 'real'
    herm = shp not in ((), None) and len(shp) == 2 and _safe_herm(a) and _safe_herm(b)
    r = mk('ite', c, a, b, shape=shp, typ=typ, herm=herm).poly()
    r.pt = a.pt if a.pt == b.pt else None
    return r


def single_ite(p):
    """args of the ite atom a Poly consists of, or None"""
    if len(p.terms) != 1:
        return None
    (sc, ms), c = next(iter(p.terms.items()))
    if c.re != 1 or c.im != 0:
        return None
    if len(sc) == 1 and not ms and sc[0][1] == 1 and sc[0][0].kind == 'ite':
        return sc[0][0].args
    if not sc and len(ms) == 1 and ms[0][1] == '' and ms[0][0].kind == 'ite':
        return ms[0][0].args
    return None


def dims_same(a, b):
    if a.shape is None or b.shape is None:
        return True
    return len(a.shape) == len(b.shape)


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ('kind', 'args', '_key', '_fv', '_h')

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args
        self._key = self._fv = self._h = None

    @property
    def key(self):
        if self._key is None:
            self._key = short('B' + self.kind + '(' + ','.join(t_key(a) for a in self.args) + ')')
        return self._key

    @property
    def fv(self):
        if self._fv is None:
            if self.kind == 'forall':
                self._fv = t_fv(self.args[0]) | (t_fv(self.args[2]) - frozenset(self.args[1]))
            else:
                self._fv = t_fv(self.args)
        return self._fv

    @property
    def height(self):
        if self._h is None:
            self._h = t_height(self.args) + (1 if self.kind == 'forall' else 0)
        return self._h

    def subst(self, m):
        if not (self.fv & m.keys()):
            return self
        k = self.kind
        if k == 'and':
            return band(*[a.subst(m) for a in self.args])
        if k == 'or':
            return bor(*[a.subst(m) for a in self.args])
        if k == 'not':
            return bnot(self.args[0].subst(m))
        if k == 'ge0':
            return ge0(self.args[0].subst(m))
        if k == 'eq0':
            return eq0(self.args[0].subst(m))
        if k == 'forall':
            n, bn, body = self.args
            names, vs, b = open_binder(bn, body)
            return forall(n.subst(m), names[0], b.subst(m))
        if k == 'pred':
            return pred(self.args[0], *[t_subst(a, m) for a in self.args[1:]])
        if k == 'bvar':
            return self
        raise Unsupported('subst in ' + k)

    def __repr__(self):
        return pretty_b(self)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, B) and self.key == o.key


TRUE, FALSE = B('true'), B('false')


def band(*xs):
    out, seen = [], set()
    for x in xs:
        for y in (x.args if x.kind == 'and' else (x,)):
            if y.kind == 'true':
                continue
            if y.kind == 'false':
                return FALSE
            if y.key not in seen:
                seen.add(y.key)
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    for y in out:
        if bnot(y).key in seen:
            return FALSE
    return B('and', *sorted(out, key=lambda b: b.key))


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def bnot(x):
    if x.kind == 'true':
        return FALSE
    if x.kind == 'false':
        return TRUE
    if x.kind == 'not':
        return x.args[0]
    if x.kind == 'ge0' and x.args[0].is_int():
        # not (p >= 0)  <=>  -p - 1 >= 0
        return ge0(sub(neg(x.args[0]), ONE))
    return B('not', x)


def ge0(p):
    c = p.const_value()
    if c is not None:
        return TRUE if c.re >= 0 else FALSE
    if p.is_int():
        # divide by gcd of non-constant coefficients
        from math import gcd
        g = 0
        for w, cc in p.terms.items():
            if w != ((), ()):
                g = gcd(g, int(cc.re))
        if g > 1:
            t = {}
            for w, cc in p.terms.items():
                if w == ((), ()):
                    k = int(cc.re) // g
                    if k:
                        t[w] = C(k)
                else:
                    t[w] = C(cc.re / g)
            p = Poly(t, (), p.pt)
    else:
        # positive scaling to a canonical leading coefficient
        items = sorted(((w, c) for w, c in p.terms.items()), key=lambda x: word_key(x[0]))
        lead = abs(items[0][1].re)
        if lead and lead != 1:
            p = Poly({w: C(c.re / lead, c.im / lead) for w, c in p.terms.items()}, (), p.pt)
    return B('ge0', p)


def eq0(p):
    c = p.const_value()
    if c is not None:
        return TRUE if c.zero() else FALSE
    if p.shape not in ((), None) and p.is_zero():
        return TRUE
    if p.shape == ():
        items = sorted(p.terms.items(), key=lambda x: word_key(x[0]))
        lead = items[0][1]
        if lead != C1:
            li = lead.inv()
            q = Poly({w: c * li for w, c in p.terms.items()}, (), None)
            if not (p.is_int() and not q.is_int()):
                p = q
            elif lead.re < 0:
                p = neg(p)
    return B('eq0', p)


def lt(a, b):
    if a.is_int() and b.is_int():
        return ge0(sub(sub(b, a), ONE))
    return bnot(ge0(sub(a, b)))


def le(a, b):
    return ge0(sub(b, a))


def eq(a, b):
    return eq0(sub(a, b)) if a.shape == b.shape == () else eq0(add_raw(a, neg(b)))


def pred(name, *args):
    return B('pred', name, *args)


def bvar(name):
    return B('pred', name)


def forall(n, name, body):
    """for all name in [0, n): body"""
    if body.kind == 'true':
        return TRUE
    bn, b = close([name], body)
    return B('forall', n, bn, b)


# ---------------------------------------------------------------- rebuild after substitution
REBUILD = {}
REBUILD_ARGS = {}


def rebuild(a, m):
    k = a.kind
    if k == 'var':
        return m.get(a.args[0], a.poly())
    if k in REBUILD:
        return REBUILD[k](a, m)
    shp = a.shape
    if shp:
        shp = tuple(d.subst(m) for d in shp)
    if k == 'sum':
        n, bn, body = a.args
        names, vs, b = open_binder(bn, body)
        return bigsum(n.subst(m), names[0], b.subst(m))
    args = tuple(t_subst(x, m) for x in a.args) if k not in BINDERS else None
    if k == 'ip':
        q = None
        for (x, mod) in a.args[0]:
            y = apply_mod_raw(x.subst_poly(m), mod)
            q = y if q is None else matmul_raw(q, y)
        q.shape = (ONE, ONE)
        return as_scalar(collapse(q))
    if k == 'expm':
        return expm(args[0])
    if k == 'kron':
        return kron(*args)
    if k == 'ite':
        return ite(*args)
    if k == 'abs':
        return absval(args[0])
    if k == 'pow2':
        return pow2(args[0])
    if k == 'inv':
        return inverse(args[0])
    if k == 'conj':
        return conj(args[0])
    if k == 'expel':
        return expel(args[0])
    if k == 'diag':
        return diag(args[0])
    if k == 'trace':
        return trace(args[0])
    if k == 'sqrt':
        return sqrt(args[0])
    if k == 'log2':
        return log2(args[0])
    if k in BINDERS:
        names, vs, b = open_binder(a.args[-2], a.args[-1])
        pre = tuple(t_subst(x, m) for x in a.args[:-2])
        b = t_subst(b, m)
        bn, bb = close(names, b)
        r = mk(k, *pre, bn, bb, shape=shp, typ=a.typ, herm=a.herm, unit=a.unit, info=a.info)
        if SEMANTIC_HOOK:
            r = SEMANTIC_HOOK(r)
        return r.poly()
    return mk(k, *args, shape=shp, typ=a.typ, herm=a.herm, unit=a.unit, info=a.info).poly()


def apply_mod_raw(p, mod):
    """mods on possibly 1-d atoms inside words (vectors are columns there)"""
    q = Poly(p.terms, None)
    if mod in ('*', 'H'):
        q = _map_words(q, '*', None)
    if mod in ('T', 'H'):
        q = _map_words(q, 'T', None)
    return q


def app(name, *args, typ='int', shape=(), herm=False, unit=False):
    """uninterpreted function application"""
    return mk('app', name, *args, shape=shape, typ=typ, herm=herm, unit=unit).poly()


# ---------------------------------------------------------------- pretty printing
def pretty_atom(a, depth=0):
    if depth > 6:
        return '…'
    if a.kind == 'var':
        return a.args[0]
    if a.kind == 'app':
        return a.args[0] + '(' + ', '.join(pp(x, depth + 1) for x in a.args[1:]) + ')'
    if a.kind == 'ip':
        return '<' + ' '.join(pretty_atom(x, depth + 1) + m for x, m in a.args[0]) + '>'
    if a.kind == 'cmat':
        return 'M' + str(a.args[0]).replace("'", '')
    return a.kind + '(' + ', '.join(pp(x, depth + 1) for x in a.args) + ')'


def pp(x, depth=0):
    if isinstance(x, Poly):
        return pretty(x, depth)
    if isinstance(x, Atom):
        return pretty_atom(x, depth)
    if isinstance(x, B):
        return pretty_b(x, depth)
    if isinstance(x, tuple):
        return '(' + ', '.join(pp(y, depth + 1) for y in x) + ')'
    return str(x)


def pretty(p, depth=0):
    if depth > 8:
        return '…'
    if not p.terms:
        return '0'
    out = []
    for (sc, ms), c in sorted(p.terms.items(), key=lambda x: word_key(x[0])):
        s = []
        if c != C1 or (not sc and not ms):
            s.append(repr(c))
        for a, e in sc:
            s.append(pretty_atom(a, depth + 1) + (f'^{e}' if e != 1 else ''))
        if ms:
            s.append('@'.join(pretty_atom(a, depth + 1) + m for a, m in ms))
        elif p.shape not in ((), None) and not all(is_one_dim(d) for d in p.shape):
            s.append('Id')
        out.append('*'.join(s))
    return ' + '.join(out)


def pretty_b(b, depth=0):
    if b.kind == 'ge0':
        return pretty(b.args[0], depth + 1) + ' >= 0'
    if b.kind == 'eq0':
        return pretty(b.args[0], depth + 1) + ' == 0'
    if b.kind == 'not':
        return 'not (' + pretty_b(b.args[0], depth + 1) + ')'
    if b.kind in ('and', 'or'):
        return '(' + f' {b.kind} '.join(pretty_b(x, depth + 1) for x in b.args) + ')'
    if b.kind == 'pred':
        return b.args[0] + '(' + ', '.join(pp(x, depth + 1) for x in b.args[1:]) + ')'
    if b.kind == 'forall':
        return f'forall {b.args[1][0]} < {pp(b.args[0])}: {pretty_b(b.args[2], depth + 1)}'
    return b.kind


# ---------------------------------------------------------------- integer division
def fdiv(a, b):
    """floor division of real scalars"""
    ca, cb = a.const_value(), b.const_value()
    if cb is not None and cb.zero():
        raise Unsupported('division by zero')
    if ca is not None and cb is not None:
        return const(int((ca.re / cb.re).__floor__()), 'int')
    if cb is not None and cb == C1 and a.is_int():
        return a
    k = b.int_value()
    if k is not None and k > 1 and a.is_int():
        # pull out multiples of k
        q, r = {}, {}
        for w, c in a.terms.items():
            v = int(c.re)
            d, m = divmod(v, k)
            if d:
                q[w] = C(d)
            if m:
                r[w] = C(m)
        rest = Poly(r, (), 'int')
        if not r:
            return Poly(q, (), 'int')
        if rest.const_value() is not None:
            return Poly(q, (), 'int')
        x = mk('fdiv', rest, b, typ='int').poly()
        return Poly(add_raw(Poly(q, (), 'int'), x).terms, (), 'int')
    if not (a.is_int() and b.is_int()):
        raise Unsupported('floor division of reals')
    return Poly(mk('fdiv', a, b, typ='int').poly().terms, (), 'int')


def imod(a, b):
    ca, cb = a.const_value(), b.const_value()
    if ca is not None and cb is not None:
        if cb.zero():
            raise Unsupported('modulo zero')
        return const(Fraction(ca.re % cb.re), 'int' if a.pt == 'int' else a.pt)
    k = b.int_value()
    if k is not None and a.is_int():
        r = {w: C(int(c.re) % k) for w, c in a.terms.items() if int(c.re) % k}
        p = Poly(r, (), 'int')
        v = p.int_value()
        if v is not None:
            return const(v % k)
        return Poly(mk('mod', p, b, typ='int').poly().terms, (), 'int')
    if not (a.is_int() and b.is_int()):
        raise Unsupported('modulo of reals')
    return Poly(mk('mod', a, b, typ='int').poly().terms, (), 'int')


REBUILD['fdiv'] = lambda a, m: fdiv(a.args[0].subst(m), a.args[1].subst(m))
REBUILD['mod'] = lambda a, m: imod(a.args[0].subst(m), a.args[1].subst(m))
REBUILD_ARGS['fdiv'] = lambda a, args: fdiv(*args)
REBUILD_ARGS['mod'] = lambda a, args: imod(*args)
