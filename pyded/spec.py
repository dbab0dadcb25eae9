"""Contract language: symbolic inputs, specification terms, obligations."""
import ast
import json
import os
import signal
import tempfile
import time
import traceback
from . import terms as T
from . import solve as S
from . import loops
from . import libqml
from .terms import Poly, B, Unsupported
from .values import *
from . import values as V
from .interp import Interp, RaiseSig, Sig, PathDead, ReturnSig
from .libs import TypeV, DictView, JoinStr, Thunk

ZERO, ONE = T.ZERO, T.ONE


# ------------------------------------------------------------------ symbolic inputs
def integer(name):
    return to_int(T.var(name, 'int'))


def real(name):
    p = T.var(name, 'real')
    return Poly(p.terms, (), 'float')


def cplx(name):
    p = T.var(name, 'complex')
    return Poly(p.terms, (), 'complex')


def matrix(name, N, herm=False, unit=False, typ='complex'):
    return T.mk('var', name, typ, shape=(N, N), typ=typ, herm=herm, unit=unit).poly()


def fam(name, *idx, typ='real', shape=(), herm=False, unit=False):
    """element of an uninterpreted family"""
    return T.app(name, *idx, typ=typ, shape=shape, herm=herm, unit=unit)


def wires_obj(tok, k=None):
    a = {'token': tok}
    if k is not None:
        a['len'] = num(k)
    o = SymObj('wires', a, key=('wires', tok), fv=T.t_fv(tok))
    o.rebuild = lambda m: wires_obj(T.t_subst(tok, m), None if k is None else T.t_subst(k, m))
    a['labels'] = o
    return o


def obs_obj(i, name='O'):
    """the i-th observable: a hermitian matrix on a non-empty tuple of distinct wires"""
    k = to_int(fam('nw' + name, i, typ='int'))
    N = T.pow2(k)
    M = fam(name, i, typ='complex', shape=(N, N), herm=True)
    tok = fam('w' + name, i, typ='int')
    o = SymObj('obs', {'matrix': Arr(M), 'wires': wires_obj(tok, k)}, key=('obs', name, i), fv=T.t_fv(i))
    o.rebuild = lambda m: obs_obj(T.t_subst(i, m), name)
    return o


def observables(m, name='O'):
    return PyList([SegMap(m, lambda i: obs_obj(i, name))])


def obs_full(i, n, name='O'):
    k = to_int(fam('nw' + name, i, typ='int'))
    M = fam(name, i, typ='complex', shape=(T.pow2(k), T.pow2(k)), herm=True)
    return libqml.embed(M, fam('w' + name, i, typ='int'), n)


def op_obj(i, name='G'):
    k = to_int(fam('nw' + name, i, typ='int'))
    N = T.pow2(k)
    M = fam(name, i, typ='complex', shape=(N, N), unit=True)
    o = SymObj('qop', {'matrix': Arr(M), 'wires': wires_obj(fam('w' + name, i, typ='int'), k)}, key=('op', name, i), fv=T.t_fv(i))
    o.rebuild = lambda m: op_obj(T.t_subst(i, m), name)
    return o


def op_full(i, n, name='G'):
    k = to_int(fam('nw' + name, i, typ='int'))
    M = fam(name, i, typ='complex', shape=(T.pow2(k), T.pow2(k)), unit=True)
    return libqml.embed(M, fam('w' + name, i, typ='int'), n)


def circuit_fn(I, K, params, name='G'):
    """user circuit: K gates on the device, returns qml.state()"""
    def call(a, k):
        if len(a) != 1 or k or a[0] is not params:
            raise Unsupported('circuit called with other arguments')
        if I.queue is not None:
            I.set(I.queue, 'segs', I.queue.segs + (SegMap(K, lambda i: op_obj(i, name)),))
        return I.lib.qml.q_state([], {})
    return SymObj('circuit', {}, call=call, key=('circuit', name))


def Sum(n, f, shape=()):
    nm, i = T.newvar('s')
    b = f(to_int(i))
    return T.bigsum(n, nm, b)


def Seq(n, f):
    return SymSeq([SegMap(to_int(n), f)])


def real_pt(p):
    return Poly(p.terms, p.shape, 'float')


class Ghost(Obj):
    """specification state advanced by `iterate`"""

    def __init__(self, **kw):
        super().__init__()
        self.s.update(kw)


def iterate(I, n, step, stop=None, **init):
    """specification recursion: state after n steps; returns fn(k) -> state dict at k (k <= n)"""
    g = Ghost(**{k: v for k, v in init.items()})

    def body(j):
        new = step(j, {k: g.s[k] for k in init})
        for k, v in new.items():
            I.set(g, k, v)
    loops.for_loop(I, [SegMap(to_int(n), lambda i: i)], lambda j: body(to_int(to_poly(j))))
    return {k: g.s[k] for k in init}


# ------------------------------------------------------------------ equality of values with the specification
class NotEqual(Exception):
    pass


def require(I, c, why):
    ok = I.prove(c) if isinstance(c, B) else bool(c)
    if not ok:
        raise NotEqual(why + (': ' + T.pretty_b(c)[:900] if isinstance(c, B) else ''))


def poly_eq(I, a, b, why):
    if a.shape is not None and b.shape is not None and a.shape != b.shape:
        if len(a.shape) != len(b.shape):
            raise NotEqual(f'{why}: shape {a.shape} instead of {b.shape}')
        for x, y in zip(a.shape, b.shape):
            require(I, T.eq(x, y), f'{why}: dimension')
    d = T.add_raw(Poly(a.terms, b.shape), T.neg(Poly(b.terms, b.shape)))
    if d.is_zero():
        S.STATS['syntactic'] += 1
        return
    if not S.prove_eq0(d, I.facts, 0):
        if DEBUG:
            from .debug import diff
            for t in diff(a, b):
                print('   DIFF', *t)
        raise NotEqual(f'{why}: got {T.pretty(a)[:700]} expected {T.pretty(b)[:700]}')


def begin(I, ctx):
    """the inputs exist: what follows is the call under verification"""
    ctx['_mark'], ctx['_birth'] = len(I.trail), next(V._birth)


def copied(v):
    """an input of its own for this path (objects of the contract text are shared between paths)"""
    if isinstance(v, Arr):
        return Arr(to_poly(v))
    if isinstance(v, PyList):
        return PyList(list(v.segs))
    return v


def again(I, ctx, f, x):
    """the result of f(x); for frame conditions f is called once more on its result, which has to stay as it was"""
    r = f(x)
    if ctx.get('_twice'):
        ctx['_keep'] = [r]
        f(r)
    return r


def program_state(I):
    """ids of the objects reachable from the modules: not something a caller passed in"""
    seen, todo = set(), list(I.modules.values())
    while todo:
        o = todo.pop()
        if isinstance(o, (tuple, list)):
            todo += list(o)
        elif isinstance(o, Seg1):
            todo.append(o.v)
        elif isinstance(o, dict):
            todo += list(o.values())
        elif isinstance(o, Obj):
            if id(o) in seen:
                continue
            seen.add(id(o))
            todo += list(o.s.values())
            todo += [getattr(o, a) for a in ('defaults', 'kwdefaults', 'env', 'cls') if getattr(o, a, None) is not None]
        elif hasattr(o, '__dict__') and type(o).__module__.startswith('pyded.values') and id(o) not in seen:
            seen.add(id(o))
            todo += list(vars(o).values())
    return seen


def changed_since(I, ctx, allow=()):
    """descriptions of the objects from before the call that the call changed"""
    out = []
    first = {}
    for obj, slot, old in I.trail[ctx['_mark']:]:
        if (obj.birth <= ctx['_birth'] or any(obj is a for a in ctx.get('_keep', ()))) and obj is not I.rng and type(obj).__name__ != 'Ghost' and not any(obj is a for a in allow):
            first.setdefault((id(obj), slot), (obj, slot, old))
    prog = program_state(I) if first else ()
    for obj, slot, old in first.values():
        new = obj.s.get(slot)
        if new is old or (type(new) is type(old) and isinstance(new, tuple) and len(new) == len(old) and all(a is b for a, b in zip(new, old))):
            continue
        try:
            if veq_quick(new, old):
                continue
        except Exception:
            pass
        if id(obj) in prog:
            raise Unsupported(f'state of the program kept between calls ({type(obj).__name__} {slot})')
        out.append(f'{type(obj).__name__} {getattr(obj, "name", "") or getattr(getattr(obj, "cls", None), "name", "")}.{slot}')
    return out


def split_guards(I, segs):
    """decide the conditions under which whole segments are present (forks the path)"""
    out = []
    for s in segs:
        if isinstance(s, SegMap):
            p = s.cnt
            for a in S.atoms_of(p).values():
                if a.kind == 'ite' and len(p.terms) == 1:
                    d = I.decide(a.args[0])
                    p = S.replace_atom(p, a, a.args[1] if d else a.args[2])
            if p.is_zero():
                continue
            s = SegMap(to_int(p), s.fn)
        out.append(s)
    return tuple(out)


def under(I, fs, f):
    mark = len(I.facts)
    I.facts += fs
    try:
        return f()
    finally:
        del I.facts[mark:]


def seq_eq(I, xs, ys, why, depth):
    """two segment lists denote the same sequence"""
    xs, ys = [s for s in xs], [s for s in ys]
    nx, ny = V.seqlen(xs), V.seqlen(ys)
    require(I, T.eq(nx, ny), f'{why}: length {T.pretty(nx)} instead of {T.pretty(ny)}')
    xs = [s for s in xs if not I.prove(T.eq0(s.n()))]
    ys = [s for s in ys if not I.prove(T.eq0(s.n()))]
    k = 0
    off = ZERO
    while xs and ys:
        a, b = xs[0], ys[0]
        if isinstance(a, Seg1) and isinstance(b, Seg1):
            veq(I, a.v, b.v, f'{why}[{T.pretty(off)}]', depth + 1)
            xs.pop(0), ys.pop(0)
            off = to_int(T.add(off, ONE))
            continue
        if isinstance(a, SegMap) and isinstance(b, SegMap):
            c = None
            if I.prove(T.le(a.cnt, b.cnt)):
                c = a.cnt
            elif I.prove(T.le(b.cnt, a.cnt)):
                c = b.cnt
            if c is not None:
                nm, i = T.newvar('i')
                i = to_int(i)
                under(I, [T.ge0(i), T.lt(i, c)], lambda: veq(I, a.fn(i), b.fn(i), f'{why}[{T.pretty(off)}+i]', depth + 1))
                xs = drop(I, xs, c)
                ys = drop(I, ys, c)
                off = to_int(T.add(off, c))
                continue
        if isinstance(a, Seg1) and isinstance(b, SegMap) and I.prove(T.le(ONE, b.cnt)):
            veq(I, a.v, b.fn(ZERO), f'{why}[{T.pretty(off)}]', depth + 1)
            xs, ys = drop(I, xs, ONE), drop(I, ys, ONE)
            off = to_int(T.add(off, ONE))
            continue
        if isinstance(b, Seg1) and isinstance(a, SegMap) and I.prove(T.le(ONE, a.cnt)):
            veq(I, a.fn(ZERO), b.v, f'{why}[{T.pretty(off)}]', depth + 1)
            xs, ys = drop(I, xs, ONE), drop(I, ys, ONE)
            off = to_int(T.add(off, ONE))
            continue
        if isinstance(a, loops.SegFlat) and isinstance(b, loops.SegFlat):
            require(I, T.eq(a.cnt, b.cnt), f'{why}: families')
            nm, i = T.newvar('i')
            i = to_int(i)
            under(I, [T.ge0(i), T.lt(i, a.cnt)], lambda: seq_eq(I, a.segsfn(i), b.segsfn(i), f'{why}[block i]', depth + 1))
            xs.pop(0), ys.pop(0)
            off = to_int(T.add(off, a.n()))
            continue
        # generic index
        nm, i = T.newvar('i')
        i = to_int(i)
        rest = V.seqlen(xs)
        xs1, ys1 = xs, ys

        def cmp():
            def th():
                veq(I, I.lib.seg_get(xs1, i), I.lib.seg_get(ys1, i), f'{why}[{T.pretty(off)}+i]', depth + 1)
            I.explore(th)
        under(I, [T.ge0(i), T.lt(i, rest)], cmp)
        return
    for s in xs + ys:
        require(I, T.eq0(s.n()), f'{why}: length')


def drop(I, segs, c):
    s = segs[0]
    if I.prove(T.eq(s.n(), c)):
        return segs[1:]
    if isinstance(s, SegMap):
        return [SegMap(to_int(T.sub(s.cnt, c)), lambda i, s=s, c=c: s.fn(to_int(T.add(i, c))))] + segs[1:]
    raise Unsupported('segment alignment')


def veq(I, a, b, why='value', depth=0):
    """a (computed) equals b (specified) under the current path, else NotEqual"""
    if a is b:
        return
    if isinstance(a, Thunk):
        a = a.f()
    if isinstance(b, Thunk):
        b = b.f()
    if isinstance(b, (Poly, Arr, int)) and not isinstance(b, bool):
        if not isinstance(a, (Poly, Arr, int, B)):
            if isinstance(a, Vec) and T.scalar_like(to_poly(b)):
                sg = list(a.segs)
                if elementwise(sg) and len(sg) == 1:
                    return veq(I, sg[0].v, b, why, depth)
            raise NotEqual(f'{why}: got {a!r} expected number/array')
        return poly_eq(I, to_poly(a), to_poly(b), why)
    if isinstance(b, (bool, B)):
        if not isinstance(a, (bool, B, int, Poly)):
            raise NotEqual(f'{why}: got {a!r} expected boolean')
        x = to_b(I.truth(a))
        y = to_b(b)
        require(I, T.bor(T.band(x, y), T.band(T.bnot(x), T.bnot(y))), f'{why}: boolean')
        return
    if b is None:
        if a is not None:
            raise NotEqual(f'{why}: got {a!r} expected None')
        return
    if isinstance(b, str):
        if isinstance(a, str):
            if a != b:
                raise NotEqual(f'{why}: got {a!r} expected {b!r}')
            return
        c = I.lib.key_eq(a, b)
        require(I, to_b(c), f'{why}: string {a!r} vs {b!r}')
        return
    if isinstance(b, SymStr):
        if strcode(a) is None:
            raise NotEqual(f'{why}: got {a!r} expected {b!r}')
        return poly_eq(I, strcode(a), b.code, why)
    if isinstance(b, JoinStr):
        if not isinstance(a, JoinStr) or a.sep != b.sep:
            raise NotEqual(f'{why}: string {a!r}')
        return seq_eq(I, [a.seg], [b.seg], why, depth)
    if isinstance(b, PyDict):
        if not isinstance(a, PyDict):
            raise NotEqual(f'{why}: got {a!r} expected dict')
        return dict_eq(I, a, b, why, depth)
    if isinstance(b, tuple) and not isinstance(a, tuple) and not isinstance(a, SymSeq):
        raise NotEqual(f'{why}: got {type(a).__name__} expected tuple')
    if isinstance(b, (tuple, SymSeq, PyList)):
        if not isinstance(a, (tuple, SymSeq, PyList)):
            raise NotEqual(f'{why}: got {a!r} expected sequence')
        return seq_eq(I, I.lib.segs(a), I.lib.segs(b), why, depth)
    if isinstance(b, PySet):
        if not isinstance(a, PySet) or a.sym is not None or b.sym is not None:
            raise NotEqual(f'{why}: set')
        for x in V.plain(a):
            if not any(I.lib.key_eq(x, y) is True for y in b.s['items']):
                raise NotEqual(f'{why}: extra element {x!r}')
        for x in V.plain(b):
            if not any(I.lib.key_eq(x, y) is True for y in a.s['items']):
                raise NotEqual(f'{why}: missing element {x!r}')
        return
    if isinstance(b, SymObj):
        if isinstance(a, SymObj) and veq_quick(a, b):
            return
        raise NotEqual(f'{why}: got {a!r} expected {b!r}')
    if veq_quick(a, b):
        return
    raise NotEqual(f'{why}: got {a!r} expected {b!r}')


def dict_eq(I, a, b, why, depth):
    na, nb = to_poly(I.lib.b_len([a], {})), to_poly(I.lib.b_len([b], {}))
    require(I, T.eq(na, nb), f'{why}: number of keys {T.pretty(na)} instead of {T.pretty(nb)}')
    for e in b.ents:
        if e.cnt is None:
            def th(e=e):
                v = I.lib.dict_get(a, e.k)
                if v is UNDEF:
                    raise NotEqual(f'{why}: key {e.k!r} missing')
                veq(I, v, e.v, f'{why}[{e.k!r}]', depth + 1)
            I.explore(th)
        else:
            nm, i = T.newvar('i')
            i = to_int(i)

            def th(e=e):
                v = I.lib.dict_get(a, e.k(i))
                if v is UNDEF:
                    raise NotEqual(f'{why}: key {e.k(i)!r} missing')
                veq(I, v, e.v(i), f'{why}[key i]', depth + 1)
            under(I, [T.ge0(i), T.lt(i, e.cnt)], lambda: I.explore(th))


# ------------------------------------------------------------------ contracts and obligations
class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obl = []          # dict(name, ok, detail)
        self.unsupported = []  # (function, reason)
        self.functions = {}    # qual -> info
        self.inlined = set()
        self.used = set()
        self.paths = 0
        self.vac = []


class K:
    """a verification run for one property"""

    def __init__(self, pid, repo='/repo', contracts=None, trace=False):
        self.rep = Report(pid)
        self.repo = repo
        self.contracts = contracts or {}
        self.trace = trace
        self.base = None
        self.jobs = 1
        self.limit = 240
        self.running = []

    def interp(self, contracts=()):
        I = Interp(self.repo, {q: self.contracts[q] for q in contracts})
        return I

    def hoare(self, qual, name, tree, contracts, fname, axioms, setup, cls=None):
        """one function of the imperative subset (pyded/imp.py)"""
        if fname not in {d.name for d in tree.body if isinstance(d, ast.FunctionDef)}:
            self.rep.unsupported.append((f'{qual.split("oranssi.")[-1]}:{name}', 'missing definition'))
            return
        self.verify(qual, name, hoare=(tree, contracts, fname, axioms, setup, cls))

    def z3lemmas(self, qual, name, goals, axioms):
        """lemmas of the specification language: (name, goal, facts), each valid with the axioms"""
        import z3
        t0 = time.time()
        info = self.rep.functions.setdefault(qual, {'contracts': [], 'obligations': 0, 'paths': 0, 'seconds': 0.0})
        for nm, goal, facts in goals:
            ok = False
            for mbqi in (False, True):
                s = z3.Solver()
                s.set('timeout', 20000)
                s.set('smt.mbqi', mbqi)
                for t in list(axioms) + list(facts) + [z3.Not(goal)]:
                    s.add(t)
                ok = ok or s.check() == z3.unsat
                S.STATS['queries'] = S.STATS.get('queries', 0) + 1
                if ok:
                    break
            self.rep.obl.append({'name': f'{qual.split("oranssi.")[-1]}:{name}:{nm}', 'ok': ok, 'detail': '' if ok else 'not proved', 'path': []})
            info['obligations'] += 1
        info['contracts'].append(name)
        info['seconds'] = round(info['seconds'] + time.time() - t0, 3)

    def hoare_here(self, qual, name, hoare):
        from . import imp
        t0 = time.time()
        tree, contracts, fname, axioms, setup, cls = hoare
        rep, label = self.rep, f'{qual.split("oranssi.")[-1]}:{name}'
        info = rep.functions.setdefault(qual, {'contracts': [], 'obligations': 0, 'paths': 0, 'seconds': 0.0})
        E = (cls or imp.Exec)(tree, contracts, fname, axioms)
        n = 0
        try:
            n = E.verify(setup, t0 + self.limit - 10)
            for o, (ok, det, cnt) in E.obl.items():
                rep.obl.append({'name': f'{label}:{o}', 'ok': ok, 'detail': '' if ok else det, 'path': []})
            info['obligations'] += len(E.obl)
        except Unsupported as e:
            rep.unsupported.append((label, f'Unsupported: {e}'))
            if self.trace:
                traceback.print_exc()
        except (AttributeError, TypeError, ValueError, IndexError, KeyError, NameError, imp.z3.Z3Exception) as e:
            rep.unsupported.append((label, f'engine {type(e).__name__}: {e}'))
            if self.trace:
                traceback.print_exc()
        info['contracts'].append(name)
        info['paths'] += n
        info['seconds'] = round(info['seconds'] + time.time() - t0, 3)
        rep.paths += n
        q = qual.rsplit('.', 1)[0]
        rep.used |= {f'{q}.{f}' for f in E.used}
        rep.inlined |= {f'{q}.{f}' for f in E.inlined}
        S.STATS['queries'] = S.STATS.get('queries', 0) + E.queries
        S.STATS['solver_s'] = S.STATS.get('solver_s', 0) + E.secs

    def verify(self, *a, **kw):
        """one contract; with `jobs` > 1 each one is discharged in a forked process, results are merged in order"""
        here = self.hoare_here if 'hoare' in kw else self.verify_here
        if self.jobs <= 1:
            return here(*a, **kw)
        while sum(1 for j in self.running if not self.poll(j)) >= self.jobs:
            time.sleep(0.005)
        fd, path = tempfile.mkstemp(prefix='pyded_')
        os.close(fd)
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(self.limit)      # the contract counts as undecided when its time is up
                self.rep = Report(self.rep.pid)
                for x in S.STATS:
                    S.STATS[x] = 0
                here(*a, **kw)
                r = self.rep
                with open(path, 'w') as f:
                    json.dump({'obl': r.obl, 'unsupported': r.unsupported, 'functions': r.functions, 'inlined': sorted(r.inlined), 'used': sorted(r.used), 'paths': r.paths, 'stats': dict(S.STATS)}, f, default=str)
            finally:
                os._exit(0)
        self.running.append({'pid': pid, 'path': path, 'done': False, 'label': f'{a[0].split("oranssi.")[-1]}:{a[1]}', 'slot': len(self.running)})

    def poll(self, j, block=False):
        if not j['done']:
            p, st = os.waitpid(j['pid'], 0 if block else os.WNOHANG)
            if p:
                j['done'] = True
        return j['done']

    def join(self):
        for j in self.running:
            self.poll(j, True)
            try:
                with open(j['path']) as f:
                    d = json.load(f)
            except ValueError:
                d = {'obl': [], 'unsupported': [(j['label'], 'time limit or engine process ended')], 'functions': {}, 'inlined': [], 'used': [], 'paths': 0, 'stats': {}}
            os.unlink(j['path'])
            r = self.rep
            r.obl += d['obl']
            r.unsupported += [tuple(u) for u in d['unsupported']]
            for q, i in d['functions'].items():
                o = r.functions.setdefault(q, {'contracts': [], 'obligations': 0, 'paths': 0, 'seconds': 0.0})
                o['contracts'] += i['contracts']
                o['obligations'] += i['obligations']
                o['paths'] += i['paths']
                o['seconds'] = round(o['seconds'] + i['seconds'], 3)
            r.inlined |= set(d['inlined'])
            r.used |= set(d['used'])
            r.paths += d['paths']
            for x, v in d['stats'].items():
                S.STATS[x] = S.STATS.get(x, 0) + v
        self.running = []

    def verify_here(self, qual, name, build, post, pre=(), contracts=(), expect=('return',), budget=None, call=None):
        """explore every path of `qual` from the symbolic inputs of `build`; `post(I, ctx, kind, value, ob)` states the
        obligations of each path; a path that ends in another way than `expect` is a failed obligation"""
        t0 = time.time()
        rep = self.rep
        info = rep.functions.setdefault(qual, {'contracts': [], 'obligations': 0, 'paths': 0, 'seconds': 0.0})
        I = self.interp(contracts)
        if budget:
            I.budget = budget
        before = len(rep.obl)
        npaths = [0]
        label = f'{qual.split("oranssi.")[-1]}:{name}'
        try:
            fn = None if call else I.lookup_qual(qual)
            if not call:
                I.under.add(qual)
            I.facts.extend(pre)
            if pre and S.infeasible(list(pre)):
                rep.obl.append({'name': label + ':precondition satisfiable', 'ok': False, 'detail': 'vacuous precondition'})

            def thunk():
                ctx = build(I)
                ctx['_mark'], ctx['_birth'] = len(I.trail), next(V._birth)
                args, kw = ctx['args'], ctx.get('kw', {})
                kind, val = 'return', None
                try:
                    if call:
                        val = call(I, ctx)
                    else:
                        val = I.call_body(fn, list(args), dict(kw), ctx.get('extra'))
                except RaiseSig as e:
                    kind, val = 'raise', e
                npaths[0] += 1

                def ob(n, goal, detail=''):
                    ok, det = True, ''
                    try:
                        if callable(goal):
                            r = goal()
                            if r is False:
                                ok = False
                        elif isinstance(goal, B):
                            ok = I.prove(goal)
                            det = '' if ok else I.explain(goal)
                        else:
                            ok = bool(goal)
                    except NotEqual as e:
                        ok, det = False, str(e)
                    except ReturnSig:
                        ok = True
                    rep.obl.append({'name': f'{label}:{n}', 'ok': ok, 'detail': (detail + ' ' + det).strip() if not ok else '',
                                    'path': [] if ok else [T.pretty_b(f)[:160] for f in I.facts[-10:]]})
                    return ok
                if kind not in expect:
                    if kind == 'raise' and S.infeasible(I.facts):
                        return
                    ob('terminates as specified', False, f'unexpected {kind} {val}')
                    return
                post(I, ctx, kind, val, ob)
            I.explore(thunk)
            if npaths[0] == 0:
                rep.obl.append({'name': label + ':reachable', 'ok': False, 'detail': 'no feasible path (vacuous)'})
            elif len(rep.obl) == before:
                rep.obl.append({'name': label + ':nonempty', 'ok': False, 'detail': 'no obligation generated'})
        except KeyError as e:
            rep.unsupported.append((label, f'missing definition {e}'))
            del rep.obl[before:]
        except (Unsupported, T.ShapeMismatch) as e:
            rep.unsupported.append((label, f'{type(e).__name__}: {e}'))
            if self.trace:
                traceback.print_exc()
            del rep.obl[before:]
        except RecursionError as e:
            rep.unsupported.append((label, 'recursion limit'))
            del rep.obl[before:]
        except (AttributeError, TypeError, ValueError, IndexError, AssertionError, NameError, ZeroDivisionError, NotEqual) as e:
            # the engine did not understand a construct: not a verdict
            rep.unsupported.append((label, f'engine {type(e).__name__}: {e}'))
            if self.trace:
                traceback.print_exc()
            del rep.obl[before:]
        info['obligations'] += len(rep.obl) - before
        info['contracts'].append(name)
        info['paths'] += npaths[0]
        info['seconds'] = round(info['seconds'] + time.time() - t0, 3)
        rep.paths += npaths[0]
        rep.inlined |= {q for q in I.inlined if q != qual}
        rep.used |= I.used_contracts
        return I

    def lemma(self, name, ok, detail=''):
        self.rep.obl.append({'name': 'lemma:' + name, 'ok': bool(ok), 'detail': '' if ok else detail})

DEBUG = False
