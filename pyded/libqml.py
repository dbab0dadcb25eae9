"""Assumed contract of the PennyLane surface the code uses (state-vector simulation, exact arithmetic)."""
from . import terms as T
from .terms import Poly, Unsupported
from .values import *
from . import values as V
from .interp import RaiseSig


def wires_term(L, w):
    """canonical argument for an `embed` atom"""
    if isinstance(w, SymObj):
        if 'token' in w.attrs:
            return w.attrs['token']
        raise Unsupported('wires object')
    if is_num(w):
        return (to_int(to_poly(w)),)
    sg = L.segs(w)
    if not elementwise(sg):
        raise Unsupported('wires of symbolic length')
    return tuple(to_int(to_poly(s.v)) for s in sg)


def embed(op, wires, n):
    """E(op, wires, n): op on the listed wires, identity elsewhere"""
    N = T.pow2(n)
    return T.mk('embed', op, wires, n, shape=(N, N)).poly()


def is_range(L, w, n):
    """w == [0, .., n-1]"""
    if isinstance(w, SymObj):
        return w.attrs.get('isrange') is not None and L.I.prove(T.eq(w.attrs['isrange'], n))
    sg = [s for s in L.segs(w)]
    off = T.ZERO
    for s in sg:
        if isinstance(s, Seg1):
            if not is_num(s.v) or not L.I.prove(T.eq(to_poly(s.v), off)):
                return False
        elif isinstance(s, SegMap):
            nm, i = T.newvar('i')
            v = s.fn(to_int(i))
            mark = len(L.I.facts)
            L.I.facts += [T.ge0(i), T.lt(i, s.cnt)]
            try:
                if not is_num(v) or not L.I.prove(T.eq(to_poly(v), T.add(off, i))):
                    return False
            finally:
                del L.I.facts[mark:]
        else:
            return False
        off = to_int(T.add(off, s.n()))
    return L.I.prove(T.eq(off, n))


def e0(n):
    return T.mk('e0', n, shape=(T.pow2(n),), typ='real', info='unitvec').poly()


def expval(L, U, obs, n):
    """<0|U' E(o) U|0>, real for a hermitian observable"""
    v = T.matmul(U, e0(n))
    M = L.qml.obs_full(obs, n)
    r = T.matmul(T.matmul(T.conj(v), M), v)
    return Poly(r.terms, (), 'float')


def state(U, n):
    return T.matmul(U, e0(n))


def hadamard():
    return T.mk('gate', 'Hadamard', shape=(T.const(2), T.const(2)), typ='real', herm=True, unit=True).poly()


def paulirot(theta, code, k):
    """exp(-i theta/2 word)"""
    N = T.const(2 ** k)
    return T.mk('paulirot', theta, code, shape=(N, N), typ='complex', unit=True).poly()


class Qml:
    def __init__(self, L):
        self.L, self.I = L, L.I

    def obs_full(self, obs, n):
        L = self.L
        return embed(to_poly(L.I.attr(obs, 'matrix')), wires_term(L, L.I.attr(obs, 'wires')), n)

    def attr(self, mod, a):
        from .libs import TypeV
        if mod == 'pennylane':
            if a in ('PauliX', 'PauliY', 'PauliZ', 'Device', 'Identity', 'Hermitian'):
                return TypeV('qml.' + a)
            f = getattr(self, 'q_' + a, None)
            if f is not None:
                return Builtin('qml.' + a, f)
        raise Unsupported(f'{mod}.{a}')

    # ------------------------------------------------------------ circuits
    def push(self, op):
        q = self.I.queue
        if q is not None:
            self.I.set(q, 'segs', q.segs + (Seg1(op),))
        return op

    def q_QubitUnitary(self, args, kw):
        U = args[0]
        w = kw.get('wires', args[1] if len(args) > 1 else None)
        if w is None:
            raise RaiseSig('ValueError', 'wires')
        U = self.L.np.arr(U)
        return self.push(SymObj('qop', {'matrix': Arr(U), 'wires': w, 'name': 'QubitUnitary'}, key=('qu', U.key)))

    def q_state(self, args, kw):
        return SymObj('measure', {'what': 'state', 'return_type': SymObj('rt', {'name': 'State'}, key='State')}, key='state')

    def q_expval(self, args, kw):
        return SymObj('measure', {'what': 'expval', 'obs': args[0],
                                  'return_type': SymObj('rt', {'name': 'Expectation'}, key='Expectation')}, key='expval')

    def q_device(self, args, kw):
        w = kw.get('wires', args[1] if len(args) > 1 else None)
        if not is_num(w):
            raise Unsupported('device wires')
        return device(to_int(to_poly(w)))

    def nwires(self, dev):
        return to_int(to_poly(self.L.b_len([self.I.attr(dev, 'wires')], {})))

    def q_QNode(self, args, kw):
        func, dev = args[0], args[1]
        n = self.nwires(dev)
        tape = Obj()
        tape.s['ops'] = None

        def record(a, k):
            I = self.I
            old = I.queue
            I.queue = PyList([])
            try:
                r = I.call(func, list(a), dict(k))
                ops = I.queue.segs
            finally:
                I.queue = old
            return r, ops

        def call(a, k):
            extra = k.pop('**', None)
            if extra is not None:
                raise Unsupported('** into QNode')
            r, ops = record(a, k)
            U = self.unitary_of(ops, n)
            return self.measure(r, U, n)

        def construct(a, k):
            params = a[0]
            kws = a[1] if len(a) > 1 else PyDict()
            sg = self.L.segs(params)
            if not elementwise(sg):
                raise Unsupported('construct')
            kk = {e.k: e.v for e in kws.ents}
            r, ops = record([s.v for s in sg], kk)
            self.I.set(tape, 'ops', PyList(ops))
            return None

        class QT:
            pass
        from .libs import Thunk

        def tapeobj():
            if tape.s['ops'] is None:
                raise RaiseSig('AttributeError', '_ops')
            return SymObj('qtape', {'_ops': tape.s['ops'], 'operations': tape.s['ops']}, key=('qtape', id(tape)))
        return SymObj('qnode', {'construct': Builtin('construct', construct), 'qtape': Thunk(tapeobj)}, call=call,
                      key=('qnode', id(func)))

    def unitary_of(self, ops, n):
        N = T.pow2(n)
        U = T.eye(N)
        for s in ops:
            if not isinstance(s, Seg1):
                raise Unsupported('user circuit inside a QNode call')
            op = s.v
            w = op.attrs['wires']
            M = to_poly(op.attrs['matrix'])
            if is_range(self.L, w, n):
                if not T.dims_eq(M.shape, (N, N)) and not (self.I.prove(T.eq(M.shape[0], N)) and self.I.prove(T.eq(M.shape[1], N))):
                    raise RaiseSig('ValueError', 'QubitUnitary shape')
                full = Poly(M.terms, (N, N))
            else:
                full = embed(M, wires_term(self.L, w), n)
            U = T.matmul(full, U)
        return U

    def measure(self, r, U, n):
        if not isinstance(r, SymObj) or r.kind != 'measure':
            raise RaiseSig('QuantumFunctionError', 'qnode return')
        if r.attrs['what'] == 'state':
            return Arr(state(U, n))
        return expval(self.L, U, r.attrs['obs'], n)

    # ------------------------------------------------------------ gates used by the concrete circuits in layers
    def gate(self, name, M, w):
        if is_num(w):
            lab = (w,)
        else:
            sg = self.L.segs(w)
            if not elementwise(sg):
                raise Unsupported('wires of a gate')
            lab = tuple(s.v for s in sg)
        wo = SymObj('wires', {'labels': lab, 'token': tuple(to_int(to_poly(x)) for x in lab)}, key=('gatewires',) + tuple(to_poly(x).key for x in lab), fv=frozenset().union(*[to_poly(x).fv for x in lab]))
        wo.rebuild = lambda m: self.gate(name, M.subst(m), tuple(num(T.t_subst(to_poly(x), m)) for x in lab)).attrs['wires']
        o = SymObj('qop', {'matrix': Arr(M), 'wires': wo, 'name': name}, key=('gate', name, M.key, wo.ident), fv=M.fv | wo.fv)
        o.rebuild = lambda m: self.gate(name, M.subst(m), tuple(num(T.t_subst(to_poly(x), m)) for x in lab))
        return o

    def q_Hadamard(self, args, kw):
        w = kw.get('wires', args[0] if args else None)
        return self.push(self.gate('Hadamard', hadamard(), w))

    def rotation(self, name, word, theta, w):
        theta = to_poly(theta)
        if theta.shape != () or not theta.is_real():
            raise Unsupported('angle of a rotation')
        k = len(word) if isinstance(word, str) else self.I.lib.b_len([word], {})
        if not isinstance(k, int):
            raise Unsupported('length of a Pauli word')
        o = self.gate(name, paulirot(theta, strcode(word), k), w)
        if len(o.attrs['wires'].attrs['labels']) != k:
            raise RaiseSig('ValueError', 'number of wires of a rotation')
        return self.push(o)

    def q_RX(self, args, kw):
        return self.rotation('RX', 'X', args[0], kw.get('wires', args[1] if len(args) > 1 else None))

    def q_RY(self, args, kw):
        return self.rotation('RY', 'Y', args[0], kw.get('wires', args[1] if len(args) > 1 else None))

    def q_RZ(self, args, kw):
        return self.rotation('RZ', 'Z', args[0], kw.get('wires', args[1] if len(args) > 1 else None))

    def q_PauliRot(self, args, kw):
        return self.rotation('PauliRot', args[1], args[0], kw.get('wires', args[2] if len(args) > 2 else None))

    # ------------------------------------------------------------ the PennyLane optimiser (opaque)
    def q_GradientDescentOptimizer(self, args, kw):
        eta = to_poly(args[0])

        def step_and_cost(a, k):
            cf, p = a[0], a[1]
            if not (isinstance(cf, SymObj) and cf.kind == 'expvalcost'):
                raise Unsupported('optimiser step')
            pp = to_poly(p)
            key = cf.attrs['spec']
            newp = T.mk('gdstep', eta, key, pp, shape=pp.shape, typ='real').poly()
            return (Arr(newp) if newp.shape else newp, cf.call([p], {}))

        def step(a, k):
            return step_and_cost(a, k)[0]
        return SymObj('gdopt', {'step_and_cost': Builtin('step_and_cost', step_and_cost), 'step': Builtin('step', step)},
                      key=('gd', eta.key))

    def q_Hamiltonian(self, args, kw):
        return SymObj('hamiltonian', {'coeffs': args[0], 'ops': args[1]}, key=('ham', id(args[0]), id(args[1])))

    def q_ExpvalCost(self, args, kw):
        circ, H, dev = args[0], args[1], args[2]
        if not (isinstance(circ, SymObj) and 'paramstate' in circ.attrs):
            raise Unsupported('ExpvalCost')
        n = self.nwires(dev)
        if not (isinstance(H, SymObj) and H.kind == 'hamiltonian'):
            raise Unsupported('ExpvalCost')
        L = self.L
        z = L.b_zip([H.attrs['coeffs'], H.attrs['ops']], {})
        if not self.I.prove(T.eq(V.seqlen(L.segs(H.attrs['coeffs'])), V.seqlen(L.segs(H.attrs['ops'])))):
            raise RaiseSig('ValueError', 'Hamiltonian')
        N = T.pow2(n)
        M = Poly({}, (N, N))

        def parts(f):
            for s in z.segs:
                if isinstance(s, Seg1):
                    yield T.scale(to_poly(s.v[0]), f(self.obs_full(s.v[1], n)))
                else:
                    nm, i = T.newvar('i')
                    mark = len(self.I.facts)
                    self.I.facts += [T.ge0(i), T.lt(i, s.cnt)]
                    try:
                        c, o = s.fn(to_int(i))
                        body = T.scale(to_poly(c), f(self.obs_full(o, n)))
                    finally:
                        del self.I.facts[mark:]
                    yield T.bigsum(s.cnt, nm, body)
        for p in parts(lambda O: O):
            M = T.add(M, p)

        def call(a, k):
            # <v| sum_i c_i O_i |v> = sum_i c_i <v|O_i|v>
            v = circ.attrs['paramstate'](a[0], n)
            r = Poly({}, ())
            for p in parts(lambda O: T.matmul(T.matmul(T.conj(v), O), v)):
                r = T.add(r, p)
            return Poly(r.terms, (), 'float')
        return SymObj('expvalcost', {'spec': (M, circ.attrs['ptoken'])}, call=call, key=('expvalcost', M.key))


def device(n):
    w = SymSeq([SegMap(n, lambda i: num(i), True)], 'wires')
    k = n.int_value()
    if k is not None:
        w = SymSeq([Seg1(i) for i in range(k)], 'wires')
    return SymObj('device', {'wires': w, 'num_wires': num(n)}, key=('device', n.key))
