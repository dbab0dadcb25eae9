"""Proving boolean terms: exact normal forms first, then z3 on the scalar part.

z3 sees integer and real scalar terms; every atom it does not interpret is an uninterpreted
constant (named by its canonical key) or, for `app` atoms with scalar arguments, an uninterpreted
function, so a z3 `unsat` is a proof and a `sat` only a hint.
"""
import time
import z3
from . import terms as T
from .terms import Poly, Atom, B, C1

STATS = {'queries': 0, 'solver_s': 0.0, 'syntactic': 0, 'z3_unsat': 0}
AXIOMS = {}          # app name / atom kind -> fn(atom) -> list of B
TIMEOUT_MS = 4000
SHARED = {}, {}      # z3 terms of atoms and of formulas outside quantifiers


class Ctx:
    def __init__(self, bound=()):
        self.bound = tuple(bound)      # variables bound by the enclosing quantifiers
        self.cache = SHARED[0] if not self.bound else {}
        self.bools = SHARED[1] if not self.bound else {}

    # -- scalars -------------------------------------------------------
    def poly(self, p):
        """z3 arithmetic expression of a real scalar Poly (None if it is not one)"""
        if p.shape != ():
            if T.scalar_like(p):
                p = T.as_scalar(p)
            else:
                return None
        tot = None
        allint = all(c.im == 0 and c.re.denominator == 1 and all(a.typ == 'int' and e > 0 for a, e in sc)
                     for (sc, _), c in p.terms.items())
        for (sc, ms), c in p.terms.items():
            if ms or c.im != 0:
                return None
            t = z3.IntVal(int(c.re)) if (allint and c.re.denominator == 1) else z3.RealVal(str(c.re))
            for a, e in sc:
                x = self.atom(a)
                if x is None:
                    return None
                if not allint and x.sort() == z3.IntSort():
                    x = z3.ToReal(x)
                if e < 0:
                    x = 1 / (z3.ToReal(x) if x.sort() == z3.IntSort() else x)
                    e = -e
                for _ in range(e):
                    t = t * x
            tot = t if tot is None else tot + t
        if tot is None:
            return z3.IntVal(0)
        return tot

    def atom(self, a):
        if a.key in self.cache:
            return self.cache[a.key]
        r = self._atom(a)
        self.cache[a.key] = r
        return r

    def _atom(self, a):
        if a.typ == 'complex' and a.shape == ():
            if not a.poly().is_real():
                return None
        if a.shape != ():
            return None
        sort = z3.IntSort() if a.typ == 'int' else z3.RealSort()
        k = a.kind
        if k == 'var':
            return z3.Const('v:' + a.args[0], sort)
        if k == 'ite':
            c, x, y = self.boolean(a.args[0]), self.poly(a.args[1]), self.poly(a.args[2])
            if x is None or y is None:
                return self.opaque(a.key, a.fv, sort)
            if x.sort() != y.sort():
                x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
            return z3.If(c, x, y)
        if k == 'abs':
            x = self.poly(a.args[0])
            if x is not None:
                return z3.If(x >= 0, x, -x)
        if k == 'fdiv':
            x, y = self.poly(a.args[0]), self.poly(a.args[1])
            if x is not None and y is not None and x.sort() == z3.IntSort() and y.sort() == z3.IntSort():
                return z3.If(y > 0, x / y, self.opaque(a.key, a.fv, sort))
        if k == 'mod':
            x, y = self.poly(a.args[0]), self.poly(a.args[1])
            if x is not None and y is not None and x.sort() == z3.IntSort() and y.sort() == z3.IntSort():
                return z3.If(y > 0, x % y, self.opaque(a.key, a.fv, sort))
        if k == 'app':
            args = []
            for x in a.args[1:]:
                e = self.poly(x) if isinstance(x, Poly) else None
                if e is None or e.sort() != z3.IntSort():
                    args = None
                    break
                args.append(e)
            if args is not None:
                f = z3.Function('f:' + a.args[0], *[z3.IntSort()] * len(args), sort)
                return f(*args)
        if k in ('pow2', 'powc'):
            args = [self.poly(x) for x in a.args]
            if all(x is not None and x.sort() == z3.IntSort() for x in args):
                f = z3.Function('f:' + k, *[z3.IntSort()] * len(args), sort)
                return f(*args)
        return self.opaque(a.key, a.fv, sort)

    def opaque(self, key, fv, sort):
        """an uninterpreted term: a constant, or a function of the quantified variables it depends on"""
        dep = [x for x in self.bound if x in fv]
        if not dep:
            return z3.Const(key, sort)
        return z3.Function('o:' + key, *[z3.IntSort()] * len(dep), sort)(*[z3.Int('v:' + x) for x in dep])

    # -- booleans ------------------------------------------------------
    def boolean(self, b):
        r = self.bools.get(b.key)
        if r is None:
            r = self.bools[b.key] = self._boolean(b)
        return r

    def _boolean(self, b):
        k = b.kind
        if k == 'true':
            return z3.BoolVal(True)
        if k == 'false':
            return z3.BoolVal(False)
        if k == 'and':
            return z3.And(*[self.boolean(x) for x in b.args])
        if k == 'or':
            return z3.Or(*[self.boolean(x) for x in b.args])
        if k == 'not':
            return z3.Not(self.boolean(b.args[0]))
        if k in ('ge0', 'eq0'):
            p = b.args[0]
            e = self.poly(p)
            if e is not None:
                return e >= 0 if k == 'ge0' else e == 0
            return self.opaque('B:' + b.key, b.fv, z3.BoolSort())
        if k == 'pred':
            args = []
            for x in b.args[1:]:
                e = self.poly(x) if isinstance(x, Poly) else None
                if e is None or e.sort() != z3.IntSort():
                    args = None
                    break
                args.append(e)
            if args:
                f = z3.Function('p:' + str(b.args[0]), *[z3.IntSort()] * len(args), z3.BoolSort())
                return f(*args)
            return self.opaque('B:' + b.key, b.fv, z3.BoolSort())
        if k == 'forall':
            xs, rng, bound, t = [], [], self.bound, b
            while t.kind == 'forall':
                n, bn, body = t.args
                nn = Ctx(bound).poly(n)
                if nn is None:
                    return self.opaque('B:' + b.key, b.fv, z3.BoolSort())
                x = z3.Int('v:' + bn[0])
                xs.append(x)
                rng += [x >= 0, x < nn]
                bound, t = bound + (bn[0],), body
            return z3.ForAll(xs, z3.Implies(z3.And(*rng), Ctx(bound).boolean(t)))
        return self.opaque('B:' + b.key, b.fv, z3.BoolSort())


def atoms_of(t, out=None, seen=None):
    """all atoms occurring in a term (not inside binders' bodies)"""
    if out is None:
        out, seen = {}, set()
    if isinstance(t, Atom):
        if t.key in seen:
            return out
        seen.add(t.key)
        out[t.key] = t
        if t.kind in T.BINDERS:
            for x in t.args[:-2]:
                atoms_of(x, out, seen)
        else:
            for x in t.args:
                atoms_of(x, out, seen)
    elif isinstance(t, Poly):
        for sc, ms in t.terms:
            for a, _ in sc:
                atoms_of(a, out, seen)
            for a, _ in ms:
                atoms_of(a, out, seen)
    elif isinstance(t, B):
        if t.kind == 'forall':
            atoms_of(t.args[0], out, seen)
        else:
            for x in t.args:
                atoms_of(x, out, seen)
    elif isinstance(t, tuple):
        for x in t:
            atoms_of(x, out, seen)
    return out


def axioms_for(ts):
    """instances of the registered axioms for the atoms of the terms (two rounds)"""
    out, done = [], set()
    work = list(ts)
    for _ in range(3):
        new = []
        for t in work:
            for k, a in atoms_of(t).items():
                if k in done:
                    continue
                done.add(k)
                name = a.args[0] if a.kind == 'app' else a.kind
                for f in (AXIOMS.get(name), AXIOMS.get('*')):
                    if f:
                        new += f(a)
        out += new
        work = new
        if not new:
            break
    return out


_memo = {}


def check(facts, goal=None):
    """z3: are the facts (and not goal) satisfiable?  returns 'unsat' / 'sat' / 'unknown', model"""
    key = (tuple(sorted(f.key for f in facts)), goal.key if goal is not None else None)
    if key in _memo:
        return _memo[key]
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', TIMEOUT_MS)
    c = Ctx()
    ts = list(facts) + ([goal] if goal is not None else [])
    for f in facts:
        s.add(c.boolean(f))
    if goal is not None:
        s.add(z3.Not(c.boolean(goal)))
    for ax in axioms_for(ts):
        s.add(c.boolean(ax))
    r = str(s.check())
    STATS['queries'] += 1
    STATS['solver_s'] += time.time() - t0
    m = s.model() if r == 'sat' else None
    if r == 'unsat':
        STATS['z3_unsat'] += 1
    if len(_memo) > 20000:
        _memo.clear()
    if len(SHARED[1]) > 200000:
        SHARED[0].clear()
        SHARED[1].clear()
    _memo[key] = (r, m)
    return r, m


def relevant(facts, goal):
    return facts


def prove(goal, facts):
    """True if goal follows from the facts."""
    if goal.kind == 'true':
        STATS['syntactic'] += 1
        return True
    keys = {f.key for f in facts}
    if goal.key in keys:
        STATS['syntactic'] += 1
        return True
    if goal.kind == 'false':
        return check(facts, T.FALSE)[0] == 'unsat'
    if goal.kind == 'and':
        return all(prove(g, facts) for g in goal.args)
    if goal.kind == 'forall':
        n, bn, body = goal.args
        names, vs, b = T.open_binder(bn, body)
        j = vs[0]
        return prove(b, list(facts) + [T.ge0(j), T.lt(j, n)])
    if goal.kind == 'eq0':
        r = prove_eq0(goal.args[0], list(facts), 0)
        return r
    return check(facts, goal)[0] == 'unsat'


def infeasible(facts):
    for f in facts:
        if f.kind == 'false':
            return True
    ks = {f.key for f in facts}
    for f in facts:
        if T.bnot(f).key in ks:
            return True
    return check(facts)[0] == 'unsat'


def find_ites(p):
    out = []
    for a in atoms_of(p).values():
        if a.kind == 'ite':
            out.append(a)
    return out


def simplify_under(p, facts):
    """resolve ite atoms whose condition is decided by the facts"""
    for _ in range(50):
        done = True
        for a in find_ites(p):
            c = a.args[0]
            if prove(c, facts):
                p = replace_atom(p, a, a.args[1])
                done = False
                break
            if prove(T.bnot(c), facts):
                p = replace_atom(p, a, a.args[2])
                done = False
                break
        if done:
            return p
    return p


_rep = {}


def replace_atom(p, atom, by):
    """replace an atom by a Poly everywhere (including under non-binding structure)"""
    n = '!rep:' + atom.key
    return _replace(p, {atom.key: by})


def _replace(t, m):
    if isinstance(t, Poly):
        shp = tuple(_replace(d, m) for d in t.shape) if t.shape else t.shape
        out = Poly({}, shp)
        changed = False
        for (sc, ms), c in t.terms.items():
            q = T.const(c)
            for a, e in sc:
                q = T.smul(q, T.power(_replace_atom(a, m), e))
            if ms:
                w = None
                for a, mod in ms:
                    x = T.apply_mod_raw(_replace_atom(a, m), mod)
                    w = x if w is None else T.matmul_raw(w, x)
                q = T.scale(q, w)
            q = Poly(q.terms, shp)
            out = T.add_raw(out, q)
        out.shape = shp
        out.pt = t.pt
        return T.collapse(out) if shp else out
    if isinstance(t, B):
        k = t.kind
        if k in ('true', 'false'):
            return t
        if k == 'and':
            return T.band(*[_replace(x, m) for x in t.args])
        if k == 'or':
            return T.bor(*[_replace(x, m) for x in t.args])
        if k == 'not':
            return T.bnot(_replace(t.args[0], m))
        if k == 'ge0':
            return T.ge0(_replace(t.args[0], m))
        if k == 'eq0':
            return T.eq0(_replace(t.args[0], m))
        if k == 'pred':
            return T.pred(t.args[0], *[_replace(x, m) for x in t.args[1:]])
        if k == 'forall' and deep_has(t, m):
            names, vs, b = T.open_binder(t.args[1], t.args[2])
            return T.forall(_replace(t.args[0], m), names[0], _replace(b, m))
        return t
    if isinstance(t, Atom):
        return _replace_atom(t, m)
    if isinstance(t, tuple):
        return tuple(_replace(x, m) for x in t)
    return t


_deep = {}


def deep_keys(t):
    """keys of all atoms in a term, binder bodies included"""
    if isinstance(t, Atom):
        r = _deep.get(t.key)
        if r is None:
            r = frozenset([t.key]).union(*[deep_keys(x) for x in t.args])
            _deep[t.key] = r
        return r
    if isinstance(t, Poly):
        out = set()
        for sc, ms in t.terms:
            for a, _ in sc:
                out |= deep_keys(a)
            for a, _ in ms:
                out |= deep_keys(a)
        return out
    if isinstance(t, (B, tuple)):
        out = set()
        for x in (t.args if isinstance(t, B) else t):
            out |= deep_keys(x)
        return out
    return frozenset()


def deep_has(t, m):
    ks = deep_keys(t)
    return any(k in ks for k in m)


def _replace_atom(a, m):
    if a.key in m:
        return m[a.key]
    if not deep_has(a, m):
        return a.poly()
    if a.kind in T.BINDERS:
        pre = tuple(_replace(x, m) if not isinstance(x, str) else x for x in a.args[:-2])
        names, vs, b = T.open_binder(a.args[-2], a.args[-1])
        b = _replace(b, m)
        if a.kind == 'sum':
            return T.bigsum(pre[0], names[0], b)
        bn, bb = T.close(names, b)
        return T.mk(a.kind, *pre, bn, bb, shape=a.shape, typ=a.typ, herm=a.herm, unit=a.unit, info=a.info).poly()
    # rebuild with replaced args, via a substitution of fresh variables
    args = tuple(_replace(x, m) if not isinstance(x, str) else x for x in a.args)
    return rebuild_args(a, args)


def rebuild_args(a, args):
    k = a.kind
    f = {'expm': T.expm, 'kron': T.kron, 'ite': T.ite, 'abs': T.absval, 'pow2': T.pow2, 'inv': T.inverse,
         'conj': T.conj, 'expel': T.expel, 'diag': T.diag, 'trace': T.trace, 'sqrt': T.sqrt, 'log2': T.log2}.get(k)
    if f:
        return f(*args)
    if k == 'ip':
        q = None
        for (x, mod) in args[0]:
            x = x.poly() if isinstance(x, Atom) else x
            y = T.apply_mod_raw(x, mod)
            q = y if q is None else T.matmul_raw(q, y)
        q.shape = (T.ONE, T.ONE)
        return T.as_scalar(T.collapse(q))
    if k in T.REBUILD_ARGS:
        return T.REBUILD_ARGS[k](a, args)
    return T.mk(k, *args, shape=a.shape, typ=a.typ, herm=a.herm, unit=a.unit, info=a.info).poly()


def prove_eq0(p, facts, depth):
    if p.is_zero():
        STATS['syntactic'] += 1
        return True
    if p.const_value() is not None:
        return infeasible(facts)
    if p.shape == () or T.scalar_like(p):
        q = T.as_scalar(p)
        if q.is_real() or all(a.typ in ('int', 'real') for a in _top_atoms(q)):
            if check(facts, T.eq0(q))[0] == 'unsat':
                return True
    if depth > 8:
        return False
    q = simplify_under(p, facts)
    if q.is_zero():
        return True
    q = norm_indices(q, facts)
    if q.is_zero():
        return True
    q2 = unfold_once(q, facts)
    if q2 is not None:
        return prove_eq0(q2, facts, depth + 1)
    ites = find_ites(q)
    if ites:
        a = min(ites, key=lambda a: (a.height, len(a.key), a.key))
        c = a.args[0]
        r1 = infeasible(facts + [c]) or prove_eq0(replace_atom(q, a, a.args[1]), facts + [c], depth + 1)
        if not r1:
            return False
        return infeasible(facts + [T.bnot(c)]) or prove_eq0(replace_atom(q, a, a.args[2]), facts + [T.bnot(c)], depth + 1)
    return False


UNFOLD = []


def unfold_once(q, facts):
    """recursion sys(d, i+1) next to sys(d, i): replace the former by its step"""
    ss = [a for a in atoms_of(q).values() if a.kind == 'sys']
    idx = {(a.args[0].key, a.args[2].key) for a in ss}
    for a in sorted(ss, key=lambda a: (-a.height, a.key)):
        i = T.sub(a.args[2], T.ONE)
        if (a.args[0].key, Poly(i.terms, (), a.args[2].pt).key) in idx and UNFOLD and prove(T.ge0(i), facts):
            r = UNFOLD[0](a)
            if r is not None:
                return replace_atom(q, a, r)
    return None


def _top_atoms(q):
    for (sc, ms) in q.terms:
        for a, _ in sc:
            yield a


def norm_indices(p, facts):
    """merge atoms whose integer arguments are equal under the facts: pairs of apps of the same function"""
    for _ in range(12):
        ats = [a for a in atoms_of(p).values() if a.kind in ('app', 'sys', 'sum', 'embed', 'expm', 'lam', 'stop', 'paulirot') and a.args]
        byname = {}
        for a in ats:
            nm = (a.kind, a.args[0] if a.kind == 'app' else None, len(a.args))
            byname.setdefault(nm, []).append(a)
        done = True
        for nm, xs in byname.items():
            xs = sorted(xs, key=lambda a: (a.height, a.key))
            for i in range(len(xs)):
                for j in range(i + 1, len(xs)):
                    if atoms_equal(xs[i], xs[j], facts):
                        p = replace_atom(p, xs[j], xs[i].poly())
                        done = False
                        break
                if not done:
                    break
            if not done:
                break
        if done:
            return p
    return p


def atoms_equal(a, b, facts):
    if a.key == b.key:
        return True
    if a.kind != b.kind or len(a.args) != len(b.args):
        return False
    if a.kind in ('sum', 'lam') and len(a.args) == 3:
        if not args_equal(a.args[0], b.args[0], facts):
            return False
        n1, v1, b1 = T.open_binder(a.args[1], a.args[2])
        b2 = T.t_subst(b.args[2], {b.args[1][0]: v1[0]})
        ex = facts + [T.ge0(v1[0]), T.lt(v1[0], a.args[0])]
        return isinstance(b1, Poly) and isinstance(b2, Poly) and args_equal(b1, b2, ex)
    if a.kind == 'sysdef':
        # induction: equal initial values and equal steps from equal states
        if len(a.args[0]) != len(b.args[0]) or len(a.args[1]) != len(b.args[1]) or len(a.args[2]) != len(b.args[2]):
            return False
        if not all(args_equal(x, y, facts) for x, y in zip(a.args[0], b.args[0])):
            return False
        n1, v1, b1 = T.open_binder(a.args[1], a.args[2])
        n2, v2, b2 = T.open_binder(b.args[1], b.args[2])
        for x, y in zip(v1, v2):
            if x.shape != y.shape and T.t_key(x.shape) != T.t_key(y.shape):
                return False
        b2 = T.t_subst(b2, dict(zip(n2, v1)))
        ex = facts + [T.ge0(v1[0])]
        return all(args_equal(x, y, ex) for x, y in zip(b1, b2))
    if a.kind == 'stop':
        if not args_equal(a.args[0], b.args[0], facts):
            return False
        n1, v1, b1 = T.open_binder(a.args[1], a.args[2])
        b2 = T.t_subst(b.args[2], {b.args[1][0]: v1[0]})
        return args_equal(b1, b2, facts + [T.ge0(v1[0]), T.lt(v1[0], a.args[0])])
    if a.kind in T.BINDERS:
        return False
    return all(args_equal(x, y, facts) for x, y in zip(a.args, b.args))


def args_equal(x, y, facts):
    if isinstance(x, Poly) and isinstance(y, Poly):
        if x.key == y.key:
            return True
        if x.shape == () and y.shape == ():
            if x.is_int() and y.is_int():
                return check(facts, T.eq(x, y))[0] == 'unsat'
        return prove_eq0(T.add_raw(Poly(x.terms, x.shape), T.neg(y)), facts, 4)
    if isinstance(x, Atom) and isinstance(y, Atom):
        return atoms_equal(x, y, facts)
    if isinstance(x, B) and isinstance(y, B):
        return x.key == y.key or (prove(y, facts + [x]) and prove(x, facts + [y]))
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(args_equal(p, q, facts) for p, q in zip(x, y))
    return T.t_key(x) == T.t_key(y)
