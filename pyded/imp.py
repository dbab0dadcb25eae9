"""Hoare-style verification of imperative Python with loop invariants (z3).

Used for the edge-colouring module: while loops, in-place changes of a graph, dictionaries of sets.  The functions are taken from
the current source by `ast`; each one is executed symbolically, path by path.  A call of a function under contract asserts its
precondition and assumes its postcondition; functions without a contract are inlined.  A loop is cut at its head: the
invariant is asserted on entry, everything the body changes is replaced by arbitrary values, the invariant is assumed, and
asserted again after the body (together with the decrease of the variant for while loops).  A KeyError, an empty choice, max of
an empty list and the like are failed obligations."""
import ast
import os
import threading
import time
import z3
from .values import Unsupported

Node = z3.IntSort()
_V = z3.Datatype('Val')
_V.declare('vnone')
_V.declare('vabsent')
_V.declare('vint', ('ival', z3.IntSort()))
_V.declare('vnode', ('nid', z3.IntSort()))
Val = _V.create()
vnone, vabsent, vint, vnode = Val.vnone, Val.vabsent, Val.vint, Val.vnode
SetS = z3.ArraySort(Val, z3.BoolSort())
Row = z3.ArraySort(Val, Val)
ColS = z3.ArraySort(Val, Row)
CdS = z3.ArraySort(z3.IntSort(), SetS)
card = z3.Function('card', SetS, z3.IntSort())
EMPTY = z3.K(Val, z3.BoolVal(False))
_n = [0]


def fresh(sort, name='t'):
    _n[0] += 1
    return z3.Const(f'{name}!{_n[0]}', sort)


def is_int(v):
    return Val.is_vint(v)


class SInt:
    def __init__(self, t):
        self.t = t


class SBool:
    def __init__(self, t):
        self.t = t


class SVal:
    def __init__(self, t):
        self.t = t


class Heap:
    """mutable object; state in self.v (a z3 term), changed through Exec.put"""
    births = [0]

    def __init__(self, v, name):
        self.v, self.name = v, name
        Heap.births[0] += 1
        self.birth = Heap.births[0]


class HSet(Heap):
    pass


class Graph(Heap):
    """v: colour of every edge, in both directions; adjacency is fixed"""
    def __init__(self, col, adj, deg, isnode, edge, nnodes):
        super().__init__(col, 'G')
        self.adj, self.deg, self.isnode, self.edge, self.nnodes = adj, deg, isnode, edge, nnodes


class HDict(Heap):
    """integers of a domain to sets"""
    def __init__(self, v, dom, name='cd'):
        super().__init__(v, name)
        self.dom = dom


class SetRef:
    """the set stored in a dictionary under a key"""
    def __init__(self, d, k):
        self.d, self.k = d, k


class Adj:
    def __init__(self, g, u):
        self.g, self.u = g, u


class Attrs:
    def __init__(self, g, u, v):
        self.g, self.u, self.v = g, u, v


class Coll:
    """the multiset of elem(x) for the x with dom(x); `count`: number of x, if known"""
    def __init__(self, sorts, dom, elem, count=None, card_of=None):
        self.sorts, self.dom, self.elem, self.count, self.card_of = sorts, dom, elem, count, card_of
        self.ordered = False      # visited in the order of the index
        self.src = self.cond = None


class Bound:
    def __init__(self, o, name):
        self.o, self.name = o, name


class Fn:
    def __init__(self, node):
        self.node = node


class Lib:
    def __init__(self, name):
        self.name = name


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Stop(Exception):
    """the path ends here (infeasible, or its obligations are done)"""


class Contract:
    """pre(E, a) -> [(name, term)], post(E, a, old, r) -> [(name, term)]; ret(E) makes an arbitrary result; old: heap values by object"""
    def __init__(self, inputs, pre=None, post=None, ret=None, modifies=(), loops=(), facts=None, measure=None, ghost=None):
        self.ghost = ghost           # ghost(E, a, old, r): steps of the argument, before the postcondition is proved
        self.measure = measure       # of a recursive function: decreases with every call of itself
        self.inputs, self.pre, self.post, self.ret, self.modifies, self.loops, self.facts = inputs, pre or (lambda E, a: []), post or (lambda E, a, old, r: []), ret, modifies, loops, facts


class Loop:
    """hint(E, s, pre): instances of lemmas to be assumed at the end of an iteration; pre: the values at its start; types: kinds of local variables"""
    def __init__(self, inv, variant=None, hint=None, types=None):
        self.inv, self.variant, self.hint, self.types = inv, variant, hint, types or {}


class State:
    """what an invariant can mention"""
    def __init__(self, E, env, seen=None, nseen=None, entry=None):
        self.E, self.env, self.seen, self.nseen, self.entry = E, env, seen, nseen, entry

    def __getitem__(self, name):
        if name not in self.env:
            raise Unsupported(f'loop invariant mentions {name}')
        return self.env[name]

    def val(self, name):
        return lift(self[name])

    def int(self, name):
        return toint(self[name])


def lift(v):
    if isinstance(v, SVal):
        return v.t
    if v is None:
        return vnone
    if isinstance(v, bool):
        raise Unsupported('boolean as a stored value')
    if isinstance(v, (int, SInt)):
        return vint(toint(v))
    raise Unsupported(f'value {type(v).__name__} where a node or colour is expected')


def toint(v):
    if isinstance(v, bool) or isinstance(v, SBool):
        raise Unsupported('boolean as number')
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.t
    raise Unsupported(f'{type(v).__name__} as a number')


def boolterm(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.t
    raise Unsupported('truth value')


# what a name has to mean: the module or the function it is imported from; builtins are not bound
KNOWN = {'np': 'numpy', 'choice': 'random.choice', 'randint': 'random.randint', 'seed': 'random.seed', 'List': 'typing.List', 'Union': 'typing.Union', 'nx': 'networkx', 'sp': 'sympy',
         'PauliMonomial': 'class PauliMonomial', 'PauliSum': 'class PauliSum'}


def bindings(tree):
    """what the module binds at its top level"""
    out = {}
    for n in tree.body:
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = a.name
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                out[a.asname or a.name] = f'{n.module}.{a.name}'
        elif isinstance(n, ast.ClassDef):
            out[n.name] = 'class ' + n.name if n.name not in out and not n.decorator_list else None
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out[n.name] = 'function' if n.name not in out and not n.decorator_list else None
        else:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    out[x.id] = 'value'
    return out


class Exec:
    def __init__(self, tree, contracts, fname, axioms=(), timeout=20000):
        self.defs = {d.name: d for d in tree.body if isinstance(d, ast.FunctionDef)}
        self.bound = bindings(getattr(tree, 'whole', tree))
        self.tree, self.contracts, self.fname, self.timeout = tree, contracts, fname, timeout
        self.axioms = list(axioms)
        self.obl = {}        # name -> [ok, detail]
        self.used, self.inlined = set(), set()
        self.queries, self.secs = 0, 0.0
        self.depth = 0
        self.deadline = None
        self.unknown = 0
        self.cache = {}      # queries of a path are repeated by the paths that branch off later
        self.globals = {}    # heap shared by all functions, by name
        self.open = []       # enclosing loops

    # -------------------------------------------------------------- solver
    def check(self, extra, timeout=None, mbqi=False, seed=0):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit')
        key = (tuple(t.get_id() for t in self.facts), tuple(t.get_id() for t in extra), timeout, mbqi, seed)
        if key in self.cache:
            return self.cache[key][0]
        r = self.check_now(extra, timeout, mbqi, seed)
        self.cache[key] = (r, list(self.facts), list(extra))     # the terms are kept, so that their numbers stay theirs
        return r

    def check_now(self, extra, timeout, mbqi, seed=0):
        # a context of its own, so that the search does not depend on the history of the process
        text = z3.Solver()
        text.add(*self.axioms, *self.facts, *extra)
        s = z3.Solver(ctx=z3.Context())
        s.set('timeout', timeout or self.timeout)
        s.set('smt.mbqi', mbqi)
        s.set('smt.solve_eqs', False)
        if seed:
            s.set('smt.random_seed', seed)
        t0 = time.time()
        s.from_string(text.to_smt2())
        timer = threading.Timer((timeout or self.timeout) / 1000 * 1.5 + 1, s.ctx.interrupt)
        timer.start()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            timer.cancel()
        self.queries += 1
        self.secs += time.time() - t0
        return r

    def prove(self, goal, extra=()):
        if z3.is_true(goal):
            return True
        q = list(extra) + [z3.Not(goal)]
        # search times vary widely with the seed: several short attempts first
        for seed, t, mbqi in ((0, 2000, False), (1, 2000, False), (2, 3000, False), (3, 3000, True), (4, 5000, False), (5, 5000, False), (6, self.timeout, False)):
            r = self.check(q, min(t, self.timeout), mbqi, seed)
            if r != z3.unknown:
                break
        return r == z3.unsat

    def require(self, name, goal, extra=()):
        """an obligation of this path; afterwards the path may rely on it"""
        goal = goal if z3.is_expr(goal) else z3.BoolVal(bool(goal))
        t0 = time.time()
        ok = self.prove(goal, extra)
        if os.environ.get('IMP_TRACE'):
            if not ok and os.environ.get('IMP_DUMP'):
                sv = z3.Solver()
                for t in self.axioms + self.facts + list(extra):
                    sv.add(t)
                sv.add(z3.Not(goal))
                open(os.path.join(os.environ['IMP_DUMP'], f'{self.line}_{name}'.replace(' ', '_').replace('/', '_')[:80] + '.smt2'), 'w').write(sv.to_smt2())
            print(f'{"ok " if ok else "NOT"} {time.time() - t0:6.2f} line {self.line} {name} [{len(self.facts)} facts, script {self.script}]', flush=True)
        o = self.obl.setdefault(name, [True, '', 0])
        o[2] += 1
        if not ok and o[0]:
            o[0], o[1] = False, f'line {self.line}: not proved: {z3.simplify(goal)}'[:900]
        if not extra:
            self.facts.append(goal)
        return ok

    def assume(self, *ts):
        self.facts += [t for t in ts if not z3.is_true(t)]

    # -------------------------------------------------------------- paths
    def decide(self, c):
        if isinstance(c, bool):
            return c
        v = z3.simplify(c)      # (only looked at: the order of its arguments depends on the history of the process)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if self.pos < len(self.script):
            d = self.script[self.pos]
        else:
            yes = self.check([c], 200) != z3.unsat
            no = self.check([z3.Not(c)], 200) != z3.unsat
            if not yes and not no:
                raise Stop()
            if yes and no:
                d = True
                self.todo.append(self.script[:self.pos] + [False])
            else:
                d = yes
            self.script.append(d)
        self.pos += 1
        self.facts.append(c if d else z3.Not(c))
        return d

    def fork(self):
        if self.pos < len(self.script):
            d = self.script[self.pos]
        else:
            d = True
            self.todo.append(self.script[:self.pos] + [False])
            self.script.append(d)
        self.pos += 1
        return d

    def no_quant(self):
        if self.quant:
            raise Unsupported('inside a comprehension')

    def paths(self, thunk):
        """run the thunk once per feasible path (with nested cuts of loops inside)"""
        self.todo = [[]]
        n = 0
        while self.todo:
            self.script = self.todo.pop()
            self.pos = 0
            _n[0] = 0
            self.facts = []
            self.line = 0
            n += 1
            if n > 400:
                raise Unsupported('too many paths')
            try:
                thunk()
            except Stop:
                pass
        return n

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, str)):
            return bool(v)
        if isinstance(v, SBool):
            return self.decide(v.t)
        if isinstance(v, SInt):
            return self.decide(v.t != 0)
        if isinstance(v, Coll):
            return self.decide(self.nonempty(v))
        if isinstance(v, (HSet, SetRef)):
            return self.decide(self.nonempty(self.as_coll(v)))
        raise Unsupported(f'truth value of {type(v).__name__}')

    # -------------------------------------------------------------- heap
    def put(self, o, v):
        for mark, ok in self.guards:
            if o.birth <= mark and not any(o is x for x in ok):
                raise Unsupported('a loop changes an object that was not expected to change')
        self.touched.add(id(o))
        self.objs[id(o)] = o
        o.v = v

    def get_set(self, s):
        return s.v if isinstance(s, HSet) else z3.Select(s.d.v, s.k)

    def put_set(self, s, v):
        if isinstance(s, HSet):
            self.put(s, v)
        else:
            self.put(s.d, z3.Store(s.d.v, s.k, v))

    def sym(self, g, col):
        """networkx keeps one attribute dictionary per edge"""
        u, v = fresh(Val, 'u'), fresh(Val, 'v')
        return z3.ForAll([u, v], z3.Implies(g.adj(u, v), col[u][v] == col[v][u]), patterns=[col[u][v]])

    def havoc(self, o):
        for mark, ok in self.guards:
            if o.birth <= mark and not any(o is x for x in ok):
                raise Unsupported('a loop changes an object that was not expected to change')
        self.touched.add(id(o))
        self.objs[id(o)] = o
        o.v = fresh(o.v.sort(), o.name)
        if isinstance(o, Graph):
            self.assume(self.sym(o, o.v))

    # -------------------------------------------------------------- collections
    def as_coll(self, v):
        if isinstance(v, Coll):
            return v
        if isinstance(v, (HSet, SetRef)):
            s = self.get_set(v)
            return Coll([Val], lambda x: s[x], lambda x: SVal(x), self.card(s))
        if isinstance(v, Adj):
            return Coll([Val], lambda x: v.g.adj(v.u, x), lambda x: SVal(x), v.g.deg(v.u))
        if isinstance(v, HDict):
            return Coll([z3.IntSort()], v.dom, lambda k: SInt(k))
        raise Unsupported(f'iteration over {type(v).__name__}')

    def bind(self, c):
        return [fresh(s, 'x') for s in c.sorts]

    def nonempty(self, c):
        xs = self.bind(c)
        return z3.Exists(xs, c.dom(*xs))

    def card(self, s):
        x = fresh(Val, 'x')
        c = card(s)
        self.assume(c >= 0, (c == 0) == z3.ForAll([x], z3.Not(s[x])))
        return c

    def image(self, c):
        """set(c)"""
        self.no_quant()
        s = HSet(fresh(SetS, 'set'), 'set')
        y = fresh(Val, 'y')
        xs = self.bind(c)
        e = lift(c.elem(*xs))
        if len(xs) == 1 and e.eq(xs[0]):
            self.assume(z3.ForAll([y], s.v[y] == c.dom(y)))
        elif len(xs) == 1 and c.sorts[0] == z3.IntSort() and e.eq(vint(xs[0])):
            self.assume(z3.ForAll([y], s.v[y] == z3.And(is_int(y), c.dom(Val.ival(y)))))
        else:
            self.assume(z3.ForAll([y], s.v[y] == z3.Exists(xs, z3.And(c.dom(*xs), e == y))))
            self.assume(z3.ForAll(xs, z3.Implies(c.dom(*xs), s.v[e])))
        if c.count is not None:
            k = card(s.v)
            self.assume(0 <= k, k <= c.count, z3.Implies(c.count > 0, k > 0))
            if len(xs) == 1:
                ys = self.bind(c)
                f = lift(c.elem(*ys))
                self.assume((k == c.count) == z3.ForAll([xs[0], ys[0]], z3.Implies(z3.And(c.dom(xs[0]), c.dom(ys[0]), e == f), xs[0] == ys[0])))
        return s

    def choose(self, c):
        """an arbitrary element"""
        self.no_quant()
        self.require('no choice from an empty sequence', self.nonempty(c))
        xs = self.bind(c)
        self.assume(c.dom(*xs))
        return c.elem(*xs)

    # -------------------------------------------------------------- functions
    def call_fn(self, name, args):
        if len(args) != len(self.defs[name].args.args):
            raise Unsupported('call with defaults')
        c = self.contracts.get(name)
        if c is None:
            if self.depth > 6:
                raise Unsupported('recursion')
            self.inlined.add(name)
            self.depth += 1
            saved = self.loopno, self.curfn
            self.curfn = name
            try:
                return self.body(self.defs[name], args)
            finally:
                self.depth -= 1
                self.loopno, self.curfn = saved
        self.used.add(name)
        a = {**dict(zip(c.inputs, args)), **self.globals}
        for nm, t in c.pre(self, a):
            self.require(f'call of {name}: {nm}', t)
        if name == self.fname:
            if c.measure is None:
                raise Unsupported('recursion without a measure')
            m = c.measure(self, a)
            self.require('recursion terminates (the measure decreases)', z3.And(m < self.measure0, self.measure0 >= 0))
        old = {k: v.v for k, v in a.items() if isinstance(v, Heap)}
        for m in c.modifies:
            if not isinstance(a[m], Heap):
                raise Unsupported(f'argument {m} of {name}')
            self.havoc(a[m])
        r = c.ret(self) if c.ret else None
        for nm, t in c.post(self, a, old, r):
            self.assume(t)
        return r

    def body(self, d, args):
        env = dict(zip([x.arg for x in d.args.args], args))
        if d.args.vararg or d.args.kwarg or d.args.kwonlyargs or d.args.defaults:
            raise Unsupported('parameters')
        try:
            self.stmts(d.body, env)
        except ReturnSig as r:
            return r.v
        return None

    # -------------------------------------------------------------- statements
    def stmts(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.line = s.lineno
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env)
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                cur = env.get(s.target.id)
                v = self.ev(s.value, env)
                if isinstance(cur, HSet):
                    self.set_update(cur, s.op, v)
                else:
                    env[s.target.id] = self.binop(s.op, cur, v)
            else:
                raise Unsupported('augmented assignment')
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.If):
            if self.truth(self.ev(s.test, env)):
                self.stmts(s.body, env)
            else:
                self.stmts(s.orelse, env)
        elif isinstance(s, ast.Return):
            raise ReturnSig(self.ev(s.value, env) if s.value else None)
        elif isinstance(s, ast.Break):
            raise BreakSig()
        elif isinstance(s, ast.Continue):
            raise ContinueSig()
        elif isinstance(s, ast.While):
            self.loop(s, env)
        elif isinstance(s, ast.For):
            self.loop(s, env)
        elif isinstance(s, ast.Assert):
            self.require('assertion', boolterm(self.ev(s.test, env)))
        else:
            raise Unsupported(type(s).__name__)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, tuple) or len(v) != len(t.elts):
                raise Unsupported('unpacking')
            for a, b in zip(t.elts, v):
                self.assign(a, b, env)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env), self.ev(t.slice, env)
            if isinstance(o, Attrs):
                if k != 'color':
                    self.require('only the colours of the graph change', False)
                    raise Stop()
                g, x = o.g, lift(v)
                col = z3.Store(g.v, o.u, z3.Store(g.v[o.u], o.v, x))
                self.put(g, z3.Store(col, o.v, z3.Store(col[o.v], o.u, x)))
            elif isinstance(o, Adj):
                self.require('only the colours of the graph change', False)
                raise Stop()
            else:
                raise Unsupported('item assignment')
        else:
            raise Unsupported('assignment target')

    # -------------------------------------------------------------- loops
    def find_loop(self, s):
        """the invariants declared for the function, in the order of its loops"""
        key = (self.curfn, s.lineno)
        if key not in self.loopno:
            k = sum(1 for f, _ in self.loopno if f == self.curfn)
            self.loopno[key] = k
        k = self.loopno[key]
        c = self.contracts.get(self.curfn) if self.curfn != self.fname else self.contracts[self.fname]
        d = self.defs[self.curfn]
        order = [n for n in ast.walk(d) if isinstance(n, (ast.For, ast.While))]
        order.sort(key=lambda n: (n.lineno, n.col_offset))
        k = order.index(s) if s in order else k
        if c is None or k >= len(c.loops):
            raise Unsupported(f'no invariant for loop {k + 1} of {self.curfn}')
        return c.loops[k], k

    def loop(self, s, env):
        if s.orelse:
            raise Unsupported('loop else')
        spec, k = self.find_loop(s)
        tag = f'{self.curfn + ", " if self.curfn != self.fname else ""}loop {k + 1}'
        self.loop_types(spec, env)
        entry = self.snapshot(env)
        forloop = isinstance(s, ast.For)
        if forloop:
            c = self.as_coll(self.ev(s.iter, env))
            two = len(c.sorts) == 2
            sort = z3.ArraySort(Val, SetS) if two else z3.ArraySort(c.sorts[0], z3.BoolSort())
            none = z3.K(Val, EMPTY) if two else z3.K(c.sorts[0], z3.BoolVal(False))
            inseen = (lambda se, x, y: se[x][y]) if two else (lambda se, x: se[x])
        else:
            none = None
        st = State(self, env, none, z3.IntVal(0), entry)
        for nm, t in spec.inv(self, st):
            self.require(f'{tag}: {nm} (on entry)', t)
        # what the body changes
        names = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if forloop:
            names |= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        changed = self.effects(s, env)
        mark = Heap.births[0]
        for o in changed:
            self.havoc(o)
        for n in names:
            v = env.get(n)
            if isinstance(v, (Heap, Coll, Adj, Attrs, SetRef)):
                if n in getattr(self, 'rebound_ok', ()):
                    continue
                env.pop(n)
            elif n in env:
                env[n] = self.arbitrary(v, n, s)
        if forloop:
            seen, nseen = fresh(sort, 'seen'), fresh(z3.IntSort(), 'nseen')
            xs = self.bind(c)
            self.assume(z3.ForAll(xs, z3.Implies(inseen(seen, *xs), c.dom(*xs))), nseen >= 0)
            if c.count is not None:
                self.assume(nseen <= c.count)
            if c.ordered:
                self.assume(z3.ForAll(xs, seen[xs[0]] == z3.And(0 <= xs[0], xs[0] < nseen)))
            st = State(self, env, seen, nseen, entry)
        else:
            st = State(self, env, None, None, entry)
        for nm, t in spec.inv(self, st):
            self.assume(t)
        # one iteration or the end
        if forloop:
            more = self.fork()
        else:
            v0 = spec.variant(self, st) if spec.variant else None
            self.guards.append((mark, changed))
            more = self.truth(self.ev(s.test, env))
            self.guards.pop()
        if not more:
            if forloop:
                xs = self.bind(c)
                self.assume(z3.ForAll(xs, z3.Implies(c.dom(*xs), inseen(seen, *xs))))
                if c.count is not None:
                    self.assume(nseen == c.count)
            return
        if forloop:
            xs = self.bind(c)
            self.assume(c.dom(*xs), z3.Not(inseen(seen, *xs)))
            if c.count is not None:
                self.assume(nseen < c.count)
            if c.ordered:
                xs = [nseen]
            self.assign(s.target, c.elem(*xs), env)
        self.guards.append((mark, changed))
        pre = self.snapshot(env)
        self.open.append(st)
        try:
            self.stmts(s.body, env)
        except ContinueSig:
            pass
        except BreakSig:
            self.guards.pop()
            self.open.pop()
            return
        except ReturnSig:
            self.guards.pop()
            self.open.pop()
            raise
        self.guards.pop()
        self.open.pop()
        if forloop:
            ns = z3.Store(seen, xs[0], z3.Store(seen[xs[0]], xs[1], z3.BoolVal(True))) if two else z3.Store(seen, xs[0], z3.BoolVal(True))
            st = State(self, env, ns, nseen + 1, entry)
        else:
            st = State(self, env, None, None, entry)
        if spec.hint:
            spec.hint(self, st, pre)
        for nm, t in spec.inv(self, st):
            self.require(f'{tag}: {nm} (preserved)', t)
        if not forloop:
            if spec.variant is None:
                raise Unsupported('while loop without a variant')
            v1 = spec.variant(self, st)
            dec = z3.BoolVal(False)
            for a, b in reversed(list(zip(v0, v1))):
                dec = z3.Or(z3.And(b < a, a >= 0), z3.And(a == b, dec))
            self.require(f'{tag}: terminates (the variant decreases)', dec)
        raise Stop()

    def snapshot(self, env):
        return {n: (v.v if isinstance(v, Heap) else v) for n, v in {**env, **self.globals}.items()}

    def loop_types(self, spec, env):
        pass

    def effects(self, s, env):
        """heap objects the body can change: bound to names that are changed by method, item assignment, or passed to a modifying function"""
        out = []

        def add(v):
            if isinstance(v, SetRef):
                v = v.d
            if isinstance(v, (Adj, Attrs)):
                v = v.g
            if isinstance(v, Heap) and not any(v is x for x in out):
                out.append(v)
        todo = list(s.body) + ([s.test] if isinstance(s, ast.While) else [])

        def root(e):
            while isinstance(e, (ast.Subscript, ast.Attribute)):
                e = e.value
            return e.id if isinstance(e, ast.Name) else None

        def scan(nodes):
            for b in nodes:
                for n in ast.walk(b):
                    if isinstance(n, ast.Call):
                        if isinstance(n.func, ast.Attribute):
                            add(env.get(root(n.func)))
                        for x in list(n.args) + [kw.value for kw in n.keywords]:
                            f = n.func.id if isinstance(n.func, ast.Name) else None
                            c = self.contracts.get(f)
                            if f in self.defs and c is not None:
                                ps = c.inputs
                                for p, y in zip(ps, n.args):
                                    if p in c.modifies and root(y):
                                        add(env.get(root(y)))
                            elif f in self.defs and root(x):
                                add(env.get(root(x)))
                    elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                        ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                        for t in ts:
                            if isinstance(t, (ast.Subscript, ast.Attribute)) and root(t) and self.writes_root(t):
                                add(env.get(root(t)))
                            elif isinstance(n, ast.AugAssign) and isinstance(t, ast.Name):
                                add(env.get(t.id))
        scan(todo)
        return [o for o in out if not (isinstance(o, Graph) and not self.writes_graph(todo, env, o))]

    def writes_root(self, t):
        return True

    def writes_graph(self, nodes, env, g):
        """method calls on a graph in this subset only read it; items and modifying calls write"""
        for b in nodes:
            for n in ast.walk(b):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                    if any(isinstance(t, ast.Subscript) for t in ts):
                        return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in self.defs:
                    c = self.contracts.get(n.func.id)
                    if c is None or c.modifies:
                        return True
        return False

    def arbitrary(self, v, n, s):
        if isinstance(v, bool) or isinstance(v, SBool):
            return SBool(fresh(z3.BoolSort(), n))
        if isinstance(v, (int, SInt)):
            return SInt(fresh(z3.IntSort(), n))
        if v is None or isinstance(v, SVal):
            return SVal(fresh(Val, n))
        if isinstance(v, tuple):
            return tuple(self.arbitrary(x, n, s) for x in v)
        raise Unsupported(f'{n} changes in a loop')

    # -------------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in self.defs:
            return Fn(self.defs[e.id])
        if self.bound.get(e.id, e.id) != KNOWN.get(e.id, e.id):
            raise Unsupported(f'{e.id} is bound in the module')
        return Lib(e.id)

    def e_Tuple(self, e, env):
        return tuple(self.ev(x, env) for x in e.elts)

    def e_List(self, e, env):
        if e.elts:
            raise Unsupported('list display')
        return Coll([Val], lambda x: z3.BoolVal(False), lambda x: SVal(x), z3.IntVal(0))

    def e_JoinedStr(self, e, env):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, env)
        return ''

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        """short circuit; in a pure context both sides are terms"""
        vs = []
        for x in e.values[:-1]:
            v = self.ev(x, env)
            if getattr(self, 'quant', 0):
                vs.append(boolterm(v))
                continue
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t or isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, SBool) else t
        v = self.ev(e.values[-1], env)
        if vs:
            vs.append(boolterm(v))
            return SBool(z3.And(*vs) if isinstance(e.op, ast.And) else z3.Or(*vs))
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return SBool(z3.Not(v.t))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v if isinstance(v, int) else SInt(-toint(v))
        raise Unsupported('unary operator')

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        if isinstance(a, (HSet, SetRef)) and isinstance(b, (HSet, SetRef)):
            r = HSet(self.get_set(a), 'set')
            self.set_update(r, op, b)
            return r
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
            f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b}.get(type(op))
            if f:
                return f()
        f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y}.get(type(op))
        if f is None:
            raise Unsupported('operator')
        return SInt(f(toint(a), toint(b)))

    def set_update(self, s, op, b):
        self.no_quant()
        x, y = self.get_set(s), self.get_set(b)
        r = fresh(SetS, 'set')
        v = fresh(Val, 'v')
        f = {ast.Sub: lambda p, q: z3.And(p, z3.Not(q)), ast.BitAnd: z3.And, ast.BitOr: z3.Or}.get(type(op))
        if f is None:
            raise Unsupported('set operator')
        self.assume(z3.ForAll([v], r[v] == f(x[v], y[v])))
        if isinstance(op, ast.Sub):
            self.assume(card(r) <= card(x), card(r) >= card(x) - card(y))
        self.put_set(s, r)

    def equal(self, a, b):
        if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            if isinstance(a, (str, bool)) and isinstance(b, (str, bool)):
                return a == b
            raise Unsupported('comparison')
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Coll) and isinstance(y, Coll) and y.count is not None and z3.is_int_value(y.count) and y.count.as_long() == 0:
                return SBool(z3.Not(self.nonempty(x)))
            if isinstance(x, (HSet, SetRef)) and isinstance(y, (HSet, SetRef)):
                v = fresh(Val, 'v')
                return SBool(z3.ForAll([v], self.get_set(x)[v] == self.get_set(y)[v]))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return SBool(z3.And(*[boolterm(self.equal(x, y)) for x, y in zip(a, b)]))
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            return SBool(toint(a) == toint(b))
        return SBool(lift(a) == lift(b))

    def contains(self, x, c):
        if isinstance(c, (HSet, SetRef)):
            return SBool(self.get_set(c)[lift(x)])
        if isinstance(c, Adj):
            return SBool(c.g.adj(c.u, lift(x)))
        if isinstance(c, HDict):
            return SBool(c.dom(toint(x)))
        if isinstance(c, Coll):
            if c.sorts == [z3.IntSort()]:
                k = fresh(z3.IntSort(), 'k')
                e = c.elem(k)
                if isinstance(e, SInt) and e.t.eq(k):
                    v = lift(x)
                    return SBool(z3.And(is_int(v), c.dom(Val.ival(v))))
            xs = self.bind(c)
            return SBool(z3.Exists(xs, z3.And(c.dom(*xs), lift(c.elem(*xs)) == lift(x))))
        raise Unsupported('in')

    def e_Compare(self, e, env):
        vals = [self.ev(x, env) for x in [e.left] + e.comparators]
        out = []
        for op, a, b in zip(e.ops, vals, vals[1:]):
            if isinstance(op, (ast.Eq, ast.Is)):
                r = self.equal(a, b)
            elif isinstance(op, (ast.NotEq, ast.IsNot)):
                r = self.equal(a, b)
                r = not r if isinstance(r, bool) else SBool(z3.Not(r.t))
            elif isinstance(op, ast.In):
                r = self.contains(a, b)
            elif isinstance(op, ast.NotIn):
                r = SBool(z3.Not(self.contains(a, b).t))
            else:
                x, y = toint(a), toint(b)
                r = SBool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
            out.append(r)
        if len(out) == 1:
            return out[0]
        return SBool(z3.And(*[boolterm(r) for r in out]))

    def e_Subscript(self, e, env):
        o, k = self.ev(e.value, env), self.ev(e.slice, env)
        if isinstance(o, tuple) and isinstance(k, int):
            return o[k]
        if isinstance(o, Graph):
            u = lift(k)
            self.side('G[u]: a node of the graph', o.isnode(u))
            return Adj(o, u)
        if isinstance(o, Adj):
            v = lift(k)
            self.side('G[u][v]: an edge of the graph', o.g.adj(o.u, v))
            return Attrs(o.g, o.u, v)
        if isinstance(o, Attrs):
            if k != 'color':
                raise Unsupported('edge attribute')
            c = o.g.v[o.u][o.v]
            self.side('the edge has a colour', c != vabsent)
            return SVal(c)
        if isinstance(o, HDict):
            i = toint(k)
            self.side('the dictionary has the key', o.dom(i))
            return SetRef(o, i)
        raise Unsupported('subscript')

    def side(self, name, t):
        """a condition without which the expression raises; under a binder it has to hold in the scope of the binder"""
        if getattr(self, 'quant', 0):
            self.require(name, t, extra=self.scope)
        else:
            self.require(name, t)

    # comprehensions
    def coll_of(self, gens, elt, env):
        if len(gens) > 2:
            raise Unsupported('comprehension')
        colls, sub = [], dict(env)
        self.quant = getattr(self, 'quant', 0) + 1
        scope0 = list(getattr(self, 'scope', []))
        self.scope = list(scope0)
        try:
            xs_all, doms = [], []
            for g in gens:
                c = self.as_coll(self.ev(g.iter, sub))
                xs = self.bind(c)
                d = c.dom(*xs)
                self.scope = self.scope + [d]
                self.assign(g.target, c.elem(*xs), sub)
                for cond in g.ifs:
                    t = boolterm(self.ev(cond, sub))
                    d = z3.And(d, t)
                    self.scope = self.scope + [t]
                xs_all += xs
                doms.append(d)
                colls.append(c)
            r = self.ev(elt, sub)
        finally:
            self.quant -= 1
            self.scope = scope0
        dom = z3.And(*doms) if len(doms) > 1 else doms[0]
        cnt = colls[0].count if len(gens) == 1 and not gens[0].ifs else None
        sorts = [x.sort() for x in xs_all]

        def sub_t(t, ys):
            return z3.substitute(t, *zip(xs_all, ys))

        def rebuild(v, ys):
            if isinstance(v, (SInt, SBool, SVal)):
                return type(v)(sub_t(v.t, ys))
            if isinstance(v, tuple):
                return tuple(rebuild(x, ys) for x in v)
            if isinstance(v, Attrs):
                return Attrs(v.g, sub_t(v.u, ys), sub_t(v.v, ys))
            if hasattr(v, 'rebuild'):
                return v.rebuild(lambda t: sub_t(t, ys))
            if isinstance(v, HSet):
                return v
            if v is None or isinstance(v, (int, bool, str)):
                return v
            raise Unsupported('element of a comprehension')
        out = Coll(sorts, lambda *ys: sub_t(dom, ys), lambda *ys: rebuild(r, ys), cnt)
        if len(gens) == 1 and colls[0].ordered:
            out.ordered, out.src = not gens[0].ifs, colls[0]
        return out

    def e_ListComp(self, e, env):
        return self.coll_of(e.generators, e.elt, env)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        return self.image(self.coll_of(e.generators, e.elt, env))

    def e_DictComp(self, e, env):
        return self.mkdict(self.coll_of(e.generators, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), env))

    def mkdict(self, c):
        if c.sorts != [z3.IntSort()]:
            raise Unsupported('dictionary')
        k = fresh(z3.IntSort(), 'k')
        r = c.elem(k)
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], SInt) and r[0].t.eq(k) and isinstance(r[1], HSet) and getattr(r[1], 'new_empty', False)):
            raise Unsupported('dictionary values')
        return HDict(z3.K(z3.IntSort(), EMPTY), c.dom)

    def e_Attribute(self, e, env):
        return Bound(self.ev(e.value, env), e.attr)

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = [self.ev(x, env) for x in e.args]
        if e.keywords:
            if isinstance(f, Fn):
                ps = [x.arg for x in f.node.args.args]
                kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
                args = args + [kw[p] for p in ps[len(args):]]
            else:
                raise Unsupported('keywords')
        if isinstance(f, Fn):
            if getattr(self, 'quant', 0):
                c = self.contracts.get(f.node.name)
                if c is None or c.modifies or c.ret is None:
                    raise Unsupported('call in a comprehension')
                return self.pure_call(f.node.name, c, args)
            return self.call_fn(f.node.name, args)
        if isinstance(f, Bound):
            return self.method(f.o, f.name, args)
        if isinstance(f, Lib):
            m = getattr(self, 'lib_' + f.name, None)
            if m is None:
                raise Unsupported(f'{f.name}()')
            return m(*args)
        raise Unsupported('call')

    def pure_call(self, name, c, args):
        """inside a binder: the postcondition has to define the result as a term"""
        self.used.add(name)
        a = dict(zip(c.inputs, args))
        for nm, t in c.pre(self, a):
            self.side(f'call of {name}: {nm}', t)
        if c.facts is None:
            raise Unsupported('call in a comprehension')
        return c.facts(self, a)

    def method(self, o, name, args):
        if isinstance(o, Graph):
            if name == 'degree' and len(args) == 1:
                self.side('degree of a node', o.isnode(lift(args[0])))
                return SInt(o.deg(lift(args[0])))
            if name == 'nodes' and not args:
                return Coll([Val], o.isnode, lambda x: SVal(x), o.nnodes)
            if name == 'edges' and not args:
                return Coll([Val, Val], o.edge, lambda x, y: (SVal(x), SVal(y)))
            if name == 'neighbors':
                return self.as_coll(Adj(o, lift(args[0])))
        if isinstance(o, Adj):
            if name == 'values':
                return Coll([Val], lambda x: o.g.adj(o.u, x), lambda x: Attrs(o.g, o.u, x), o.g.deg(o.u))
            if name == 'keys':
                return self.as_coll(o)
            if name == 'items':
                return Coll([Val], lambda x: o.g.adj(o.u, x), lambda x: (SVal(x), Attrs(o.g, o.u, x)), o.g.deg(o.u))
        if isinstance(o, Attrs) and name == 'values':
            # the colour and whatever other attributes the edge has
            other = self.other
            return Coll([Val], lambda y: z3.Or(z3.And(y == o.g.v[o.u][o.v], y != vabsent), other(o.u, o.v, y)), lambda y: SVal(y))
        if isinstance(o, (HSet, SetRef)):
            s = self.get_set(o)
            if getattr(self, 'quant', 0):
                raise Unsupported('set method in a comprehension')
            if name == 'add':
                x = lift(args[0])
                n = z3.Store(s, x, z3.BoolVal(True))
                self.assume(card(s) >= 0, card(n) == card(s) + z3.If(s[x], 0, 1))
                self.put_set(o, n)
                return None
            if name in ('remove', 'discard'):
                x = lift(args[0])
                if name == 'remove':
                    self.require('remove: the element is in the set', s[x])
                n = z3.Store(s, x, z3.BoolVal(False))
                self.assume(card(n) >= 0, card(n) == card(s) - z3.If(s[x], 1, 0))
                self.put_set(o, n)
                return None
            if name == 'copy':
                return HSet(s, 'set')
            if name in ('difference_update', 'difference'):
                t = o if name == 'difference_update' else HSet(s, 'set')
                for a in args:
                    b = a if isinstance(a, (HSet, SetRef)) else self.image(self.as_coll(a))
                    self.set_update(t, ast.Sub(), b)
                return None if name == 'difference_update' else t
        if isinstance(o, HDict) and name == 'items':
            return Coll([z3.IntSort()], o.dom, lambda k: (SInt(k), SetRef(o, k)))
        if isinstance(o, str):
            return ''
        raise Unsupported(f'method {name} of {type(o).__name__}')

    # library
    def lib_len(self, c):
        if isinstance(c, (HSet, SetRef)):
            s = self.get_set(c)
            if getattr(self, 'quant', 0):
                return SInt(card(s))
            return SInt(self.card(s))
        c = self.as_coll(c)
        if c.count is None:
            raise Unsupported('len')
        return SInt(c.count)

    def lib_set(self, c=None):
        if c is None:
            c = Coll([Val], lambda x: z3.BoolVal(False), lambda x: SVal(x), z3.IntVal(0))
        if isinstance(c, (HSet, SetRef)):
            return HSet(self.get_set(c), 'set')
        if isinstance(c, Coll) and c.count is not None and z3.is_int_value(c.count) and c.count.as_long() == 0:
            s = HSet(EMPTY, 'set')
            self.assume(card(EMPTY) == 0)
            s.new_empty = True
            return s
        return self.image(c)

    def lib_list(self, c):
        return self.as_coll(c)

    lib_tuple = lib_sorted = lib_list

    def lib_range(self, a, b=None):
        lo, hi = (z3.IntVal(0), toint(a)) if b is None else (toint(a), toint(b))
        return Coll([z3.IntSort()], lambda k: z3.And(lo <= k, k < hi), lambda k: SInt(k), z3.If(hi > lo, hi - lo, 0))

    def lib_dict(self, c):
        return self.mkdict(c)

    def lib_all(self, c):
        c = self.as_coll(c)
        xs = self.bind(c)
        return SBool(z3.ForAll(xs, z3.Implies(c.dom(*xs), boolterm(c.elem(*xs)))))

    def lib_any(self, c):
        c = self.as_coll(c)
        xs = self.bind(c)
        return SBool(z3.Exists(xs, z3.And(c.dom(*xs), boolterm(c.elem(*xs)))))

    def lib_sum(self, c):
        self.no_quant()
        c = self.as_coll(c)
        xs = self.bind(c)
        t = toint(c.elem(*xs))
        total = fresh(z3.IntSort(), 'sum')
        for s in cards(t):
            self.assume_card(s, xs)
        if self.prove(z3.Implies(c.dom(*xs), t >= 0), [card(s) >= 0 for s in cards(t)]):
            self.assume(total >= 0, (total == 0) == z3.ForAll(xs, z3.Implies(c.dom(*xs), t == 0)))
        return SInt(total)

    def assume_card(self, s, xs):
        y = fresh(Val, 'y')
        self.assume(z3.ForAll(xs, z3.And(card(s) >= 0, (card(s) == 0) == z3.ForAll([y], z3.Not(s[y])))))

    def lib_max(self, c, *more):
        self.no_quant()
        if more:
            a, b = toint(c), toint(*more)
            return SInt(z3.If(a >= b, a, b))
        c = self.as_coll(c)
        xs = self.bind(c)
        for s in cards(c.dom(*xs)):
            self.assume_card(s, xs)
        self.require('max of a nonempty sequence', self.nonempty(c))
        self.assume(c.dom(*xs))
        m = toint(c.elem(*xs))
        ys = self.bind(c)
        self.assume(z3.ForAll(ys, z3.Implies(c.dom(*ys), toint(c.elem(*ys)) <= m)))
        return SInt(m)

    def lib_min(self, a, b):
        a, b = toint(a), toint(b)
        return SInt(z3.If(a <= b, a, b))

    def lib_choice(self, c):
        return self.choose(self.as_coll(c))

    def lib_randint(self, a, b):
        self.no_quant()
        a, b = toint(a), toint(b)
        self.require('randint of a nonempty range', a <= b)
        r = fresh(z3.IntSort(), 'rnd')
        self.assume(a <= r, r <= b)
        return SInt(r)

    def lib_print(self, *a):
        return None

    # -------------------------------------------------------------- entry
    def verify(self, setup, deadline=None):
        """setup(E) -> arguments by name (symbolic)"""
        c = self.contracts[self.fname]
        d = self.defs[self.fname]
        self.deadline = deadline
        if len(d.args.args) != len(c.inputs):
            raise Unsupported('signature')

        def thunk():
            self.touched, self.objs, self.guards = set(), {}, []
            self.loopno, self.curfn = {}, self.fname
            self.scope, self.quant = [], 0
            self.depth = 0
            self.globals, self.open = {}, []
            a = setup(self)
            a.update(self.globals)
            for nm, t in c.pre(self, a):
                self.assume(t)
            if c.measure:
                self.measure0 = c.measure(self, a)
            if not self.sat_checked:
                self.sat_checked = True
                if self.check([], 1500) == z3.unsat:
                    self.obl['precondition satisfiable'] = [False, 'vacuous precondition', 1]
            old = {k: v.v for k, v in a.items() if isinstance(v, Heap)}
            r = self.body(d, [a[k] for k in c.inputs])
            if self.check([], 700) == z3.unsat:
                raise Stop()
            for k, v in a.items():
                if isinstance(v, Heap) and k not in c.modifies and not v.v.eq(old[k]):
                    self.require(f'{k} unchanged', v.v == old[k])
            if c.ghost:
                c.ghost(self, a, old, r)
            for nm, t in c.post(self, a, old, r):
                self.require(nm, t)
            self.returned += 1
        self.sat_checked = False
        self.returned = 0
        n = self.paths(thunk)
        if not self.returned:
            self.obl['reachable'] = [False, 'no path returns', 1]
        return n


def cards(t):
    """the sets whose cardinality occurs in a term"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(card):
            out.append(x.arg(0))
        todo += x.children()
    return out
