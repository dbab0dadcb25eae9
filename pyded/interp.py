"""Symbolic interpreter for the Python subset, driven by the AST of the current /repo source."""
import ast
import os
from fractions import Fraction
from . import terms as T
from . import solve as S
from .terms import Poly, B, Unsupported
from .values import *
from . import values as V


class Sig(Exception):
    pass


class ReturnSig(Sig):
    def __init__(self, v):
        self.v = v


class BreakSig(Sig):
    pass


class ContinueSig(Sig):
    pass


class RaiseSig(Sig):
    def __init__(self, exc, where=''):
        self.exc, self.where = exc, where

    def __str__(self):
        return f'{self.exc} at {self.where}'


class PathDead(Exception):
    pass


class Outcome:
    def __init__(self, conds, kind, val, mods, dec):
        self.conds, self.kind, self.val, self.mods, self.dec = conds, kind, val, mods, dec

    @property
    def cond(self):
        return T.band(*self.conds)


class Loc:
    """(object, slot) pair usable as dict key"""
    __slots__ = ('obj', 'slot')

    def __init__(self, obj, slot):
        self.obj, self.slot = obj, slot

    def __eq__(self, o):
        return self.obj is o.obj and self.slot == o.slot

    def __hash__(self):
        return hash((id(self.obj), self.slot))

    def __repr__(self):
        return f'{type(self.obj).__name__}#{self.obj.birth}.{self.slot}'


EXC = ['Exception', 'AssertionError', 'NotImplementedError', 'ValueError', 'TypeError', 'IndexError', 'KeyError',
       'AttributeError', 'RuntimeError', 'ZeroDivisionError', 'StopIteration', 'LookupError', 'ArithmeticError',
       'NameError', 'UnboundLocalError']
EXC_PARENT = {'IndexError': 'LookupError', 'KeyError': 'LookupError', 'ZeroDivisionError': 'ArithmeticError',
              'NotImplementedError': 'RuntimeError', 'UnboundLocalError': 'NameError'}


class Interp:
    MAX_PATHS = 400

    def __init__(self, repo='/repo', contracts=None, libs=None):
        self.repo = repo
        self.trail = []
        self.facts = []
        self.decisions, self.dpos, self.newalts, self.taken = [], 0, [], None
        self.contracts = contracts or {}
        self.obligations = []
        self.assumed = {}
        self.modules = {}
        self.depth = 0
        self.under = set()
        self.inlined = set()
        self.used_contracts = set()
        self.rng = Obj()
        self.rng.s['k'] = T.ZERO
        self.queue = None
        from . import libs as L
        self.lib = L.Libs(self)
        self.builtins = self.lib.builtins()
        self.where = ''
        self.steps = 0
        self.budget = 4_000_000

    # ---------------------------------------------------------------- heap
    def set(self, obj, slot, val):
        if obj.frozen:
            raise Unsupported('mutation of a shared element')
        self.trail.append((obj, slot, obj.s.get(slot, UNDEF)))
        obj.s[slot] = val

    def undo(self, mark, birth):
        """restore the objects that existed before; objects created since keep their final state"""
        while len(self.trail) > mark:
            obj, slot, old = self.trail.pop()
            if obj.birth > birth:
                continue
            if old is UNDEF:
                obj.s.pop(slot, None)
            else:
                obj.s[slot] = old

    def mods_since(self, mark, birth):
        out = {}
        for obj, slot, old in self.trail[mark:]:
            if obj.birth <= birth:
                l = Loc(obj, slot)
                if l not in out:
                    out[l] = obj.s.get(slot, UNDEF)
        return out

    # ---------------------------------------------------------------- logic
    def prove(self, b):
        return S.prove(b, self.facts)

    forked = []         # conditions that were undetermined so far

    def decide(self, b):
        """truth of a symbolic condition on the current path (forks when undetermined)"""
        if isinstance(b, bool):
            return b
        if b.kind == 'true':
            return True
        if b.kind == 'false':
            return False
        if self.taken is None:
            if self.prove(b):
                return True
            if self.prove(T.bnot(b)):
                return False
            raise Unsupported('fork outside an exploration')
        if self.dpos < len(self.decisions):
            r = self.decisions[self.dpos]
            self.dpos += 1
            if r is not None:
                d = r[0]
                if r[1]:
                    self.taken.append(b if d else T.bnot(b))
                    self.facts.append(b if d else T.bnot(b))
                return d
        if self.prove(b):
            self.decisions.append((True, False))
            self.dpos += 1
            return True
        if self.prove(T.bnot(b)):
            self.decisions.append((False, False))
            self.dpos += 1
            return False
        self.forked.append(b)
        self.newalts.append(self.decisions[:self.dpos] + [(False, True)])
        self.decisions.append((True, True))
        self.dpos += 1
        self.taken.append(b)
        self.facts.append(b)
        return True

    def explore(self, thunk, facts=(), limit=None):
        """run thunk on every feasible path from the current state; the state is restored"""
        outs = []
        stack = [[]]
        birth = next(V._birth)
        limit = limit or self.MAX_PATHS
        while stack:
            prefix = stack.pop()
            mark = len(self.trail)
            saved = (self.decisions, self.dpos, self.newalts, self.taken, len(self.facts))
            self.decisions, self.dpos, self.newalts, self.taken = list(prefix), 0, [], []
            self.facts.extend(facts)
            kind, val = 'normal', None
            mods = None
            try:
                try:
                    val = thunk()
                except ReturnSig as e:
                    kind, val = 'return', e.v
                except BreakSig:
                    kind = 'break'
                except ContinueSig:
                    kind = 'continue'
                except RaiseSig as e:
                    kind, val = 'raise', e
                except PathDead:
                    kind = 'dead'
                mods = self.mods_since(mark, birth)
                conds, alts = self.taken, self.newalts
                dec = tuple(d[0] for d in self.decisions)
            finally:
                self.undo(mark, birth)
                nf = saved[4]
                del self.facts[nf:]
                self.decisions, self.dpos, self.newalts, self.taken = saved[:4]
            stack.extend(alts)
            if kind == 'dead':
                continue
            if kind == 'raise' and S.infeasible(self.facts + list(facts) + conds):
                continue
            outs.append(Outcome(list(conds), kind, val, mods, dec))
            if len(outs) > limit:
                raise Unsupported('too many paths')
        return outs

    def commit(self, out):
        for l, v in out.mods.items():
            if v is UNDEF:
                raise Unsupported('deleted slot')
            self.set(l.obj, l.slot, v)

    # ---------------------------------------------------------------- obligations
    def obligation(self, name, goal, detail=''):
        ok = self.prove(goal) if isinstance(goal, B) else bool(goal)
        self.obligations.append({'name': name, 'ok': ok, 'detail': detail if ok else (detail or '') + self.explain(goal)})
        return ok

    def explain(self, goal):
        if isinstance(goal, B):
            s = ' goal: ' + T.pretty_b(goal)[:1500]
            s += ' | path: ' + '; '.join(T.pretty_b(f)[:200] for f in self.facts[-12:])
            return s
        return ' (structural mismatch)'

    # ---------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split('.')) + '.py'
        if not os.path.exists(path):
            path = os.path.join(self.repo, *name.split('.'), '__init__.py')
        src = open(path).read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src)
        env = Env(None, name, name)
        env.is_module = True
        self.modules[name] = env
        for st in tree.body:
            try:
                self.exec_top(st, env)
            except (Unsupported, RaiseSig) as e:
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        env.s[n.id] = Poison(f'module level: {e}')
        return env

    def exec_top(self, st, env):
        if isinstance(st, ast.Expr):
            return
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            return self.do_import(st, env)
        self.exec(st, env)

    def do_import(self, st, env):
        if isinstance(st, ast.Import):
            for a in st.names:
                top = a.name if a.asname else a.name.split('.')[0]
                env.s[a.asname or top] = self.lib.module(a.name if a.asname else top)
            return
        mod = st.module
        if st.level:
            raise Unsupported('relative import')
        for a in st.names:
            if mod and mod.split('.')[0] == 'oranssi':
                m = self.module(mod)
                if a.name == '*':
                    for k, v in list(m.s.items()):
                        env.s[k] = v
                elif a.name in m.s:
                    env.s[a.asname or a.name] = m.s[a.name]
                else:
                    env.s[a.asname or a.name] = Poison('missing import ' + a.name)
            else:
                env.s[a.asname or a.name] = self.lib.member(mod, a.name)

    def lookup_qual(self, qual):
        """oranssi.mod.[Class.]name -> value"""
        parts = qual.split('.')
        env = self.module('.'.join(parts[:2]))
        v = env.s[parts[2]]
        if len(parts) > 3:
            c, v = v.find(parts[3])
        return v

    # ---------------------------------------------------------------- statements
    def block(self, stmts, env):
        for k, st in enumerate(stmts):
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Subscript) and k + 1 < len(stmts) and self.many_ways(st, stmts[k + 1:], env):
                return
            self.exec(st, env)

    def many_ways(self, st, rest, env):
        """a look-up in one of many families: the rest of the block on each path, then merged"""
        outs = self.explore(lambda: self.exec(st, env))
        if len(outs) < 4:
            return False
        ends = []
        for o in outs:
            if o.kind != 'normal':
                ends.append(o)
                continue

            def go(o=o):
                self.commit(o)
                self.block(rest, env)
            ends += [Outcome(list(o.conds) + list(e.conds), e.kind, e.val, e.mods, e.dec) for e in self.explore(go, o.conds)]
        self.resolve(ends)
        return True

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Unsupported('step budget exhausted')

    def exec(self, st, env):
        self.tick()
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(st).__name__} at {env.name}:{st.lineno}')
        return m(st, env)

    def x_Pass(self, st, env):
        pass

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def x_Import(self, st, env):
        self.do_import(st, env)

    x_ImportFrom = x_Import

    def x_Global(self, st, env):
        raise Unsupported('global statement')

    def x_Nonlocal(self, st, env):
        env.nonlocals |= set(st.names)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.set(env, t.id, Poison('deleted'))
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                self.lib.delitem(o, self.eval(t.slice, env))
            else:
                raise Unsupported('del')

    def x_FunctionDef(self, st, env):
        if st.decorator_list:
            for d in st.decorator_list:
                if not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property')):
                    raise Unsupported('decorator')
        f = FuncV(st.name, st, env, env.module, None,
                  [self.eval(d, env) for d in st.args.defaults],
                  [None if d is None else self.eval(d, env) for d in st.args.kw_defaults])
        f.deco = [d.id for d in st.decorator_list]
        self.set_name(env, st.name, f)

    def x_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        ns = {}
        c = ClassV(st.name, [b for b in bases if isinstance(b, ClassV)], ns, env.module)
        cenv = Env(env, env.module, st.name)
        for s in st.body:
            if isinstance(s, ast.Expr):
                continue
            self.exec(s, cenv)
        for k, v in cenv.s.items():
            if isinstance(v, FuncV):
                v.cls = c
                v.env = env
            ns[k] = v
        self.set_name(env, st.name, c)

    def x_Return(self, st, env):
        raise ReturnSig(None if st.value is None else self.eval(st.value, env))

    def x_Break(self, st, env):
        raise BreakSig()

    def x_Continue(self, st, env):
        raise ContinueSig()

    def x_Raise(self, st, env):
        w = f'{env.name}:{st.lineno}'
        if st.exc is None:
            raise RaiseSig('Exception', w)
        e = st.exc
        if isinstance(e, ast.Call):
            e = e.func
        v = self.eval(e, env)
        if isinstance(v, ExcV):
            raise RaiseSig(v.name, w)
        raise Unsupported('raise of non-exception')

    def x_Assert(self, st, env):
        c = self.truth(self.eval(st.test, env))
        if not self.decide(c):
            raise RaiseSig('AssertionError', f'{env.name}:{st.lineno}')

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, env)
            new = self.inplace(st.op, cur, self.eval(st.value, env))
            if new is not cur or not isinstance(new, Obj) or env.s.get(t.id) is not cur:
                self.set_name(env, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.attr(o, t.attr)
            new = self.inplace(st.op, cur, self.eval(st.value, env))
            if new is not cur or not isinstance(new, Obj):
                self.set_attr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval_index(t.slice, env)
            cur = self.lib.getitem(o, i)
            new = self.inplace(st.op, cur, self.eval(st.value, env))
            if new is not cur or not isinstance(new, Obj) or not isinstance(o, (PyList, PyDict)) or isinstance(o, Vec):
                self.lib.setitem(o, i, new)
        else:
            raise Unsupported('augmented assignment target')

    def inplace(self, op, cur, val):
        if isinstance(cur, Arr):
            r = self.lib.binop(op, cur, val)
            if isinstance(r, Arr):
                if getattr(cur, 'viewed', False):
                    raise Unsupported('in-place change of an array that has views')
                if cur.val.shape is not None and r.val.shape is not None and not T.dims_eq(cur.val.shape, r.val.shape):
                    raise Unsupported('in-place broadcast')
                self.set(cur, 'val', r.val)
                return cur
            raise Unsupported('in-place op')
        if isinstance(cur, PyList) and not isinstance(cur, Vec) and isinstance(op, ast.Add):
            self.set(cur, 'segs', cur.segs + tuple(self.lib.segs(val)))
            return cur
        if isinstance(cur, PySet):
            r = self.lib.binop(op, cur, val)
            self.set(cur, 'items', r.s['items'])
            if r.sym is not None or cur.sym is not None:
                raise Unsupported('in-place symbolic set')
            return cur
        if isinstance(cur, Vec):
            raise Unsupported('in-place op on vector')
        return self.lib.binop(op, cur, val)

    def x_If(self, st, env):
        c = self.truth(self.eval(st.test, env))
        if not isinstance(c, bool):
            if self.prove(c):
                c = True
            elif self.prove(T.bnot(c)):
                c = False
        if isinstance(c, bool):
            self.block(st.body if c else st.orelse, env)
            return
        nc = T.bnot(c)
        self.forked.append(c)
        o1 = self.explore(lambda: self.block(st.body, env), [c])
        o2 = self.explore(lambda: self.block(st.orelse, env), [nc])
        for o in o1:
            o.conds = [c] + o.conds
        for o in o2:
            o.conds = [nc] + o.conds
        self.resolve(o1 + o2)

    def resolve(self, outs, merge_returns=True):
        """continue with the outcomes of an exploration: merge what can be merged, fork on the rest"""
        groups = []
        rest = list(outs)
        for kind in ('normal', 'continue', 'return'):
            g = [o for o in rest if o.kind == kind]
            if len(g) > 1 and (kind != 'return' or merge_returns):
                m = self.try_merge(g)
                if m is not None:
                    rest = [o for o in rest if o.kind != kind] + [m]
        if not rest:
            raise PathDead()
        for i, o in enumerate(rest):
            if i == len(rest) - 1 or self.decide(o.cond):
                self.commit(o)
                if o.kind in ('normal',):
                    return o.val
                if o.kind == 'return':
                    raise ReturnSig(o.val)
                if o.kind == 'break':
                    raise BreakSig()
                if o.kind == 'continue':
                    raise ContinueSig()
                if o.kind == 'raise':
                    raise o.val
                raise Unsupported('outcome ' + o.kind)

    def try_merge(self, g):
        try:
            mods = self.merge_outcomes([(o.cond, o) for o in g])
            val = g[-1].val
            for o in reversed(g[:-1]):
                if o.val is None and val is None:
                    continue
                val = vmerge(o.cond, o.val, val)
        except MergeFail:
            return None
        cond = T.bor(*[o.cond for o in g])
        return Outcome([cond], g[0].kind, val, mods, ())

    def merge_outcomes(self, outs):
        """outs: list of (condition, outcome) covering all paths -> slot -> merged value"""
        locs = {}
        for _, o in outs:
            for l in o.mods:
                locs[l] = None
        for l in locs:
            old = l.obj.s.get(l.slot, UNDEF)
            vals = [(c, o.mods.get(l, old)) for c, o in outs]
            locs[l] = self.merge_vals(vals, l)
        return locs

    def merge_vals(self, vals, loc=None):
        if loc is not None and loc.slot == 'segs' and len(vals) > 2 and all(isinstance(v, tuple) for _, v in vals):
            # the paths exclude each other: lists that grew alike are merged first
            groups = {}
            for c, v in vals:
                groups.setdefault(tuple(type(s) for s in v), []).append((c, v))
            if len(groups) > 1:
                vals = []
                for g in groups.values():
                    cur = g[-1][1]
                    for c, v in reversed(g[:-1]):
                        cur = merge_segs(c, v, cur)
                    vals.append((T.bor(*[c for c, _ in g]), cur))
        # group identical values first
        cur = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            if isinstance(cur, tuple) and loc is not None and loc.slot == 'segs':
                cur = merge_segs(c, v, cur)
            elif loc is not None and loc.slot == 'ents':
                cur = self.merge_ents(c, v, cur)
            elif loc is not None and loc.slot == 'items':
                cur = V.merge_items(c, v, cur)
            else:
                try:
                    cur = vmerge(c, v, cur)
                except MergeFail:
                    if loc is not None and isinstance(loc.obj, Env):
                        cur = Poison('differs between branches')
                    else:
                        raise
        return cur

    def merge_ents(self, c, xs, ys):
        out = []
        i = 0
        while i < len(xs) and i < len(ys):
            x, y = xs[i], ys[i]
            if x is y:
                out.append(x)
            elif isinstance(x, DEnt) and isinstance(y, DEnt) and x.cnt is None and y.cnt is None and self.lib.key_eq(x.k, y.k) is True:
                out.append(DEnt(None, x.k, vmerge(c, x.v, y.v)))
            elif isinstance(x, DPre) and isinstance(y, DPre) and x.ident == y.ident:
                out.append(x)
            else:
                break
            i += 1

        def g(c, e):
            if isinstance(e, DPre):
                raise MergeFail('dict prefix')
            if e.cnt is None:
                k, v = e.k, e.v
                return DEnt(to_int(T.ite(c, T.ONE, T.ZERO)), lambda i: k, lambda i: v, e.grp)
            return DEnt(to_int(T.ite(c, e.cnt, T.ZERO)), e.k, e.v, e.grp)
        for x in xs[i:]:
            out.append(g(c, x))
        for y in ys[i:]:
            out.append(g(T.bnot(c), y))
        return tuple(out)

    def x_While(self, st, env):
        from . import loops
        loops.exec_while(self, st, env)

    def x_For(self, st, env):
        from . import loops
        loops.exec_for(self, st, env)

    def x_Try(self, st, env):
        raise Unsupported('try statement')

    def x_With(self, st, env):
        raise Unsupported('with statement')

    # ---------------------------------------------------------------- names
    def set_name(self, env, name, v):
        if name in env.nonlocals:
            e = env.parent
            while e is not None and name not in e.s:
                e = e.parent
            if e is None:
                raise Unsupported('nonlocal')
            self.set(e, name, v)
        else:
            self.set(env, name, v)

    def name(self, n, env):
        e = env
        while e is not None:
            if n in e.s:
                v = e.s[n]
                if isinstance(v, Poison):
                    raise Unsupported(f'use of {n}: {v.why}')
                if v is UNDEF:
                    raise RaiseSig('UnboundLocalError', f'{env.name}:{n}')
                return v
            if e.parent is None:
                break
            e = e.parent
        if n in self.builtins:
            return self.builtins[n]
        raise RaiseSig('NameError', f'{env.name}:{n}')

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set_name(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.lib.setitem(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred assignment')
            vals = self.lib.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        else:
            raise Unsupported('assignment target')

    def set_attr(self, o, a, v):
        if isinstance(o, Inst):
            self.set(o, a, v)
        else:
            raise Unsupported(f'attribute assignment on {type(o).__name__}')

    def attr(self, o, a):
        if isinstance(o, Inst):
            if a in o.s:
                v = o.s[a]
                if isinstance(v, Poison):
                    raise Unsupported(f'use of .{a}: {v.why}')
                return v
            c, f = o.cls.find(a)
            if c is not None:
                if isinstance(f, FuncV):
                    deco = getattr(f, 'deco', [])
                    if 'staticmethod' in deco:
                        return f
                    if 'property' in deco:
                        return self.call(BoundV(f, o), [], {})
                    return BoundV(f, o)
                return f
            if a == '__class__':
                return o.cls
            raise RaiseSig('AttributeError', f'.{a}')
        return self.lib.attr(o, a)

    # ---------------------------------------------------------------- expressions
    def eval(self, e, env):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} at {env.name}:{getattr(e, "lineno", "?")}')
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, (bool, int, str)) or v is None:
            return v
        if isinstance(v, (float, complex)):
            return T.const(v)
        if v is Ellipsis:
            return v
        raise Unsupported('constant')

    def e_Name(self, e, env):
        return self.name(e.id, env)

    def e_Attribute(self, e, env):
        return self.attr(self.eval(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            segs = self.star_segs(e.elts, env)
            if elementwise(segs):
                return tuple(s.v for s in segs)
            return SymSeq(segs)
        return tuple(self.eval(x, env) for x in e.elts)

    def star_segs(self, elts, env):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs += list(self.lib.segs(self.eval(x.value, env)))
            else:
                segs.append(Seg1(self.eval(x, env)))
        return segs

    def e_List(self, e, env):
        return PyList(self.star_segs(e.elts, env))

    def e_Set(self, e, env):
        return PySet([self.eval(x, env) for x in e.elts])

    def e_Dict(self, e, env):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, env)
                if not isinstance(src, PyDict):
                    raise Unsupported('** of non-dict')
                self.set(d, 'ents', d.ents + src.ents)
                continue
            self.lib.setitem(d, self.eval(k, env), self.eval(v, env))
        return d

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                if v.format_spec is not None or v.conversion != -1:
                    x = OpaqueStr(['format', x, v.conversion, '' if v.format_spec is None else self.eval(v.format_spec, env)])
                parts.append(x)
        if all(isinstance(p, (str, int)) and not isinstance(p, bool) for p in parts) and \
                all(not isinstance(v, ast.FormattedValue) or v.format_spec is None for v in e.values):
            return ''.join(str(p) for p in parts)
        return OpaqueStr(parts)

    def e_Lambda(self, e, env):
        f = FuncV('<lambda>', e, env, env.module, None, [self.eval(d, env) for d in e.args.defaults],
                  [None if d is None else self.eval(d, env) for d in e.args.kw_defaults])
        return f

    def e_IfExp(self, e, env):
        c = self.truth(self.eval(e.test, env))
        if not isinstance(c, bool):
            if self.prove(c):
                c = True
            elif self.prove(T.bnot(c)):
                c = False
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, env)
        nc = T.bnot(c)
        o1 = self.explore(lambda: self.eval(e.body, env), [c])
        o2 = self.explore(lambda: self.eval(e.orelse, env), [nc])
        for o in o1:
            o.conds = [c] + o.conds
        for o in o2:
            o.conds = [nc] + o.conds
        return self.resolve(o1 + o2)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        acc = None
        pure = all(self.is_simple(v) for v in e.values[1:])
        for k, x in enumerate(e.values):
            v = self.eval(x, env)
            if k == len(e.values) - 1 and acc is None:
                return v
            t = self.truth(v)
            if not isinstance(t, bool):
                if self.prove(t):
                    t = True
                elif self.prove(T.bnot(t)):
                    t = False
            if isinstance(t, bool):
                if t != isand:
                    if acc is None:
                        return v
                    return from_b(acc) if False else (False if isand else True)
                continue
            # symbolic
            if isinstance(v, (bool, B)):
                rest_ok = True
                if acc is None:
                    acc = t
                else:
                    acc = T.band(acc, t) if isand else T.bor(acc, t)
                if k < len(e.values) - 1 and not self.is_simple(e.values[k + 1]):
                    # short circuit matters: fork
                    d = self.decide(acc)
                    if d != isand:
                        return d
                    acc = None
                continue
            d = self.decide(t)
            if d != isand:
                return v
        if acc is None:
            return v
        return from_b(acc)

    def is_simple(self, e):
        """expression whose evaluation has no effect and cannot raise for typed inputs"""
        for n in ast.walk(e):
            if isinstance(n, (ast.Call, ast.Subscript)):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'len', 'any', 'all', 'abs'):
                    continue
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('isclose', '_is_unitary'):
                    continue
                return False
        return True

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        return self.lib.unop(e.op, v)

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.lib.binop(e.op, a, b)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        acc = T.TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.lib.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            acc = T.band(acc, to_b(self.truth(c)))
            left = right
        return from_b(acc)

    def e_Subscript(self, e, env):
        return self.lib.getitem(self.eval(e.value, env), self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Starred(self, e, env):
        raise Unsupported('starred expression')

    def e_ListComp(self, e, env):
        from . import loops
        return PyList(loops.comp_segs(self, e.generators, e.elt, env))

    def e_GeneratorExp(self, e, env):
        from . import loops
        return SymSeq(loops.comp_segs(self, e.generators, e.elt, env), 'gen')

    def e_SetComp(self, e, env):
        from . import loops
        return self.lib.make_set(loops.comp_segs(self, e.generators, e.elt, env))

    def e_DictComp(self, e, env):
        from . import loops
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        ast.copy_location(pair, e)
        segs = loops.comp_segs(self, e.generators, pair, env)
        return self.lib.dict_from_pairs(segs)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = env
            while f is not None and f.cls is None:
                f = f.parent
            return SuperV(f.cls, f.self_)
        if isinstance(e.func, ast.Name) and e.func.id == 'print' and 'print' not in env.s:
            for a in e.args:
                try:
                    self.eval(a.value if isinstance(a, ast.Starred) else a, env)
                except Unsupported:
                    pass
            return None
        fn = self.eval(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                sg = self.lib.segs(self.eval(a.value, env))
                if not elementwise(sg):
                    raise Unsupported('*args of symbolic length')
                args += [s.v for s in sg]
            else:
                args.append(self.eval(a, env))
        extra = None
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if isinstance(d, PyDict):
                    for en in d.ents:
                        if not (isinstance(en, DEnt) and en.cnt is None and isinstance(en.k, str)):
                            raise Unsupported('** of symbolic dict')
                        if en.k in kw:
                            raise RaiseSig('TypeError', f'{env.name}:{e.lineno} duplicate keyword')
                        kw[en.k] = en.v
                else:
                    extra = d
            else:
                if k.arg in kw:
                    raise RaiseSig('TypeError', f'{env.name}:{e.lineno} duplicate keyword')
                kw[k.arg] = self.eval(k.value, env)
        old = self.where
        self.where = f'{env.name}:{e.lineno}'
        try:
            return self.call(fn, args, kw, extra)
        finally:
            self.where = old

    # ---------------------------------------------------------------- calls
    def truth(self, v):
        return self.lib.truth(v)

    def call(self, fn, args, kw, extra=None):
        self.tick()
        if isinstance(fn, Builtin):
            if extra is not None:
                raise Unsupported('** into builtin')
            return fn.fn(args, kw)
        if isinstance(fn, BoundV):
            if isinstance(fn.fn, FuncV):
                return self.call_func(fn.fn, [fn.self_] + args, kw, extra)
            return fn.fn(fn.self_, args, kw)
        if isinstance(fn, FuncV):
            return self.call_func(fn, args, kw, extra)
        if isinstance(fn, ClassV):
            return self.instantiate(fn, args, kw, extra)
        if isinstance(fn, ExcV):
            return fn
        if type(fn).__name__ == 'TypeV':
            if extra is not None:
                raise Unsupported('** into type')
            return self.lib.call_type(fn, args, kw)
        if isinstance(fn, SymObj):
            if fn.call is None:
                raise Unsupported(f'call of {fn.kind}')
            if extra is not None:
                kw = dict(kw)
                kw['**'] = extra
            return fn.call(args, kw)
        if isinstance(fn, Inst):
            c, f = fn.cls.find('__call__')
            if f is not None:
                return self.call_func(f, [fn] + args, kw, extra)
        raise Unsupported(f'call of {fn!r}')

    def instantiate(self, cls, args, kw, extra=None):
        q = f'{cls.module}.{cls.name}'
        if q in self.contracts and q not in self.under:
            self.used_contracts.add(q)
            return self.contracts[q](self, args, kw)
        o = Inst(cls)
        c, f = cls.find('__init__')
        if f is not None:
            self.call_func(f, [o] + args, kw, extra)
        elif args or kw:
            raise RaiseSig('TypeError', 'constructor takes no arguments')
        return o

    def bind(self, fn, args, kw, extra):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = Env(fn.env, fn.module, fn.qual)
        vals = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise RaiseSig('TypeError', f'too many arguments for {fn.qual}')
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in vals:
                    raise RaiseSig('TypeError', f'multiple values for {k} in {fn.qual}')
                vals[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                raise RaiseSig('TypeError', f'unexpected keyword {k} in {fn.qual}')
        nd = len(fn.defaults)
        for n, d in zip(names[len(names) - nd:], fn.defaults):
            vals.setdefault(n, d)
        for n, d, node in zip(kwonly, fn.kwdefaults, a.kw_defaults):
            if node is not None:
                vals.setdefault(n, d)
        for n in names + kwonly:
            if n not in vals:
                raise RaiseSig('TypeError', f'missing argument {n} of {fn.qual}')
        if a.kwarg is not None:
            if extra is not None:
                kd = self.lib.extend_kwargs(extra, rest)
            else:
                kd = PyDict([DEnt(None, k, v) for k, v in rest.items()])
            vals[a.kwarg.arg] = kd
        elif extra is not None:
            raise Unsupported('symbolic ** into fixed signature')
        env.s.update(vals)
        return env

    def call_func(self, fn, args, kw, extra=None):
        q = fn.qual
        if q in self.contracts and q not in self.under:
            self.used_contracts.add(q)
            env = self.bind(fn, args, kw, extra)
            return self.contracts[q](self, env.s)
        return self.call_body(fn, args, kw, extra)

    def call_body(self, fn, args, kw, extra=None):
        if self.depth > 60:
            raise Unsupported('recursion')
        self.inlined.add(fn.qual)
        env = self.bind(fn, args, kw, extra)
        if fn.cls is not None and args:
            env.cls, env.self_ = fn.cls, args[0]
        if isinstance(fn.node, ast.Lambda):
            return self.eval(fn.node.body, env)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(fn.node)):
            raise Unsupported('generator function')
        self.depth += 1
        try:
            outs = self.explore(lambda: self.block(fn.node.body, env))
            self.resolve([self.as_return(o) for o in outs])
        except ReturnSig as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def as_return(self, o):
        if o.kind == 'normal':
            o.kind, o.val = 'return', None
        return o


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_
