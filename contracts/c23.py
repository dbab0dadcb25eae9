"""C23: the adapt-VQE layer."""
from contracts.layers import *
from contracts.c14 import gradient, monotone
from pyded import libs as LB
from pyded import values as V_
from pyded import loops
from pyded.spec import Ghost

ASSUMPTIONS = ['the optimizer passed in is an arbitrary function that returns costs and a history of parameters of the shape given',
               'qml.RX/RY/RZ/PauliRot(t, word, wires): exp(-i t word/2) on the wires; qml.Hadamard (op.matrix, op.wires)']
CLS = LAY + 'AdaptVQELayer'
SINGLE, DOUBLE = words([1]), words([2])


def layer_keys(prev):
    out = []
    for d in SINGLE + DOUBLE:
        if d != prev:
            out += [(d, 'single')] if len(d) == 1 else [(d, 'even'), (d, 'odd')]
    return out


def value(U, n, m, key):
    """sum of the absolute gradients of the generators of a layer"""
    d, pat = key
    phi = state_of(U, n)

    def g(*q):
        return T.absval(gradient(phi, embedded(d, tuple(num(x) for x in q), n), n, m))
    two = lambda i: to_int(T.scale(T.const(2), i))
    if pat == 'single':
        return Sum(n, lambda i: g(i))
    if pat == 'even':
        return Sum(T.fdiv(n, T.const(2)), lambda i: g(two(i), to_int(T.add(two(i), ONE))))
    return T.add(Sum(T.fdiv(to_int(T.sub(n, ONE)), T.const(2)), lambda i: g(to_int(T.add(two(i), ONE)), to_int(T.add(two(i), T.const(2))))),
                 g(T.ZERO, to_int(T.sub(n, ONE))))


class Stop(Exception):
    pass


def ansatz_layer(I, V, code, pat, n, theta):
    """all rotations of one layer after V; theta(i) are the angles of the layer"""
    def fold(V, cnt, d, k, sites):
        return to_poly(iterate(I, cnt, lambda i, s: {'U': Arr(T.matmul(libqml.embed(libqml.paulirot(theta(i), d, k), sites(i), n), to_poly(s['U'])))}, U=Arr(V))['U'])
    two = lambda i: to_int(T.scale(T.const(2), i))
    up = lambda x, k: to_int(T.add(x, T.const(k)))
    for w in SINGLE:
        if I.decide(T.eq(code, V_.str_code(w))):
            return fold(V, n, V_.str_code(w), 1, lambda i: (i,))
    if I.decide(T.eq(pat, V_.str_code('even'))):
        return fold(V, T.fdiv(n, T.const(2)), code, 2, lambda i: (two(i), up(two(i), 1)))
    V = fold(V, T.fdiv(to_int(T.sub(n, ONE)), T.const(2)), code, 2, lambda i: (up(two(i), 1), up(two(i), 2)))
    return T.matmul(libqml.embed(libqml.paulirot(theta(to_int(T.sub(n, ONE))), code, 2), (T.ZERO, to_int(T.sub(n, ONE))), n), V)


def angle(k, j, i):
    return real_pt(T.app('angle', k, j, i, typ='real'))


def rows_of(k, L, n):
    return PyList([SegMap(to_int(T.add(L, ONE)), lambda j: PyList([SegMap(n, lambda i: num(angle(k, j, i)))]))])


def params_at(k, L, n):
    """the parameters after k steps of the optimizer: an array of L+1 rows of n angles"""
    o = SymObj('params', {'tolist': SymObj('tolist', {}, call=lambda a, kw: rows_of(k, L, n), key=('tolist', k))}, key=('params', k), fv=T.t_fv(k))
    o.rebuild = lambda s: params_at(T.t_subst(k, s), L, n)
    return o


def fold_gates(I, ops, wires, n):
    """the product of the gates, the first one rightmost"""
    g = Ghost(U=Arr(T.eye(T.pow2(n))))

    def step(v):
        I.set(g, 'U', Arr(T.matmul(libqml.embed(to_poly(v[0]), tuple(to_int(to_poly(x.v)) for x in I.lib.segs(v[1])), n), to_poly(g.s['U']))))
    loops.for_loop(I, I.lib.segs(I.lib.b_zip([ops, wires], {})), step)
    return g.s['U']


def prove(k):
    n, m, L = integer('n'), integer('m'), integer('L')
    U = matrix('U', T.pow2(n), unit=True)
    base = [T.le(T.const(2), n), T.ge0(m), T.ge0(L)]
    deps = [GFO]

    def call(prev):
        def f(I, ctx):
            dev, obs, u = libqml.device(n), observables(m), Arr(U)
            begin(I, ctx)
            o = I.call(I.lookup_qual(CLS), [dev, obs], {})
            if prev is not None:
                I.set(o, 'previous_direction', prev)
            ctx['layer'] = o
            ctx['before'] = SegMap(L, lambda j: (SymStr(T.app('ldir', j), tuple(SINGLE + DOUBLE)), SymStr(T.app('lpat', j), ('single', 'even', 'odd'))))
            I.set(I.attr(o, 'layers'), 'segs', (ctx['before'],))

            def opt(a, kw):
                ctx['opt'] = (a, kw)
                raise RaiseSig('StopIteration', 'stop here')
            return I.call(o, [u], {'params': PyList([]), 'optimizer': SymObj('optimizer', {}, call=opt, key='optimizer')})
        return f

    def selection(prev):
        keys = layer_keys(prev)

        def post(I, ctx, kind, val, ob):
            o = ctx['layer']
            segs = I.attr(o, 'layers').segs
            ok = ob('one layer is appended to the layers before', len(segs) == 2 and isinstance(segs[0], SegMap) and segs[0] is ctx['before'] and isinstance(segs[1], Seg1) and
                    isinstance(segs[1].v, tuple) and len(segs[1].v) == 2)
            if not ok:
                return
            t = segs[1].v
            sign, cand = LB.PICKS.get(t[0].code.key, (0, None))[:2] if isinstance(t[0], SymStr) else (0, None)
            if not ob('the layer is selected by its gradient', sign > 0):
                return
            ob('candidates: every direction but the previous one, every pattern', sorted(v for v, _ in cand) == sorted(keys))
            for v, p in cand:
                if v in keys:
                    ob(f'{v[0]} {v[1]}: compared by the summed absolute gradient', lambda: poly_eq(I, p, value(U, n, m, v), 'value'))
        return post
    for prev in [None] + SINGLE + DOUBLE:
        k.verify(CLS + '.__call__', 'selection' + (f'[after {prev}]' if prev else ''), lambda I: {'args': []}, selection(prev), base, deps, expect=('raise',), call=call(prev))

    # ---- the optimisation and the circuit
    K = integer('K')

    def full(I, ctx, case):
        dev, obs, u = libqml.device(n), observables(m), Arr(U)
        rows = PyList([SegMap(L, lambda j: PyList([SegMap(n, lambda i: real_pt(T.app('theta', j, i, typ='real')))]))])
        begin(I, ctx)
        o = I.call(I.lookup_qual(CLS), [dev, obs], {})
        ctx['layer'] = o
        ctx['before'] = SegMap(L, lambda j: (SymStr(T.app('ldir', j), tuple(SINGLE + DOUBLE)), SymStr(T.app('lpat', j), ('single', 'even', 'odd'))))
        I.set(I.attr(o, 'layers'), 'segs', (ctx['before'],))

        last = to_int(T.sub(K, ONE))

        def opt(a, kw):
            kw = dict(zip(['circuit', 'params', 'observables', 'device'], a), **kw)
            ctx['opt'] = kw
            for i, f in enumerate(I.facts):      # from here on it is enough that the new layer is one of the candidates
                for _, _, fact, weaker in LB.PICKS.values():
                    if f is fact:
                        t = I.attr(ctx['layer'], 'layers').segs[-1].v
                        ctx['case'] = I.facts[i] = T.band(weaker, case(*[x.code for x in t]))
            # the circuit that is optimised: its gates, at angles of its own
            ops, wires = I.call(I.lookup_qual('oranssi.circuit_tools.get_ops_from_qnode'), [kw['circuit'], rows_of(num(to_int(T.var('theta0', 'int'))), L, n), kw['device']], {})
            ctx['circuit'] = fold_gates(I, ops, wires, n)
            return (PyList([]), PyList([SegMap(K, lambda k: params_at(k, L, n))]))
        ctx['rows'] = rows, rows.segs
        return I.call(o, [u], {'params': rows, 'optimizer': SymObj('optimizer', {}, call=opt, key='optimizer')})

    def fullpost(I, ctx, kind, val, ob):
        kw, o = ctx['opt'], ctx['layer']
        I.facts.append(ctx['case'])
        ob('the optimizer is asked for the angles', kw.get('return_params') is True)
        ob('the cost is that of the observables of the layer', lambda: seq_eq(I, I.lib.segs(kw['observables']), observables(m).segs, 'observables', 0))
        start = SegMap(L, lambda j: PyList([SegMap(n, lambda i: real_pt(T.app('theta', j, i, typ='real')))])), Seg1(PyList([SegMap(n, lambda i: real_pt(T.div(ONE, T.const(10))))]))
        ob('optimisation starts from the given angles and 0.1 for the new layer', lambda: seq_eq(I, I.lib.segs(kw['params']), list(start), 'start', 0))
        last = to_int(T.sub(K, ONE))
        segs = I.attr(o, 'layers').segs
        ok = ob('one layer is appended to the layers before', len(segs) == 2 and segs[0] is ctx['before'] and isinstance(segs[1], Seg1) and isinstance(segs[1].v, tuple))
        if not ok:
            return
        new = segs[1].v
        code = lambda x: x.code if isinstance(x, SymStr) else V_.str_code(x)
        q = I.attr(o, 'previous_direction')
        ob('its direction is remembered', isinstance(q, (str, SymStr)) and I.prove(T.eq(code(q), code(new[0]))))

        def unitary(U, at):
            N = T.pow2(n)
            V = iterate(I, n, lambda i, s: {'U': Arr(T.matmul(libqml.embed(libqml.hadamard(), (i,), n), to_poly(s['U'])))}, U=Arr(T.eye(N)))['U']
            V = iterate(I, L, lambda j, s: {'U': Arr(ansatz_layer(I, to_poly(s['U']), T.app('ldir', j), T.app('lpat', j), n, lambda i: angle(at, j, i)))}, U=Arr(to_poly(V)))['U']
            V = ansatz_layer(I, to_poly(V), code(new[0]), code(new[1]), n, lambda i: angle(at, L, i))
            poly_eq(I, to_poly(U), V, 'unitary')
        ob('the circuit that is optimised is the ansatz', lambda: unitary(ctx['circuit'], to_int(T.var('theta0', 'int'))))
        ob('the unitary of the ansatz at the optimised angles', lambda: unitary(val[0], last))
        ob('returned with the optimised angles', lambda: seq_eq(I, I.lib.segs(val[1]), rows_of(last, L, n).segs, 'angles', 0))
        ob('the angles passed in stay as they were', ctx['rows'][0].segs is ctx['rows'][1])
    # the new layer: one case each, together all of them
    cases = {w: (lambda d, p, w=w: T.eq(d, V_.str_code(w))) for w in SINGLE}
    double = lambda d: T.band(*[T.bnot(T.eq(d, V_.str_code(w))) for w in SINGLE])
    cases['even'] = lambda d, p: T.band(double(d), T.eq(p, V_.str_code('even')))
    cases['odd'] = lambda d, p: T.band(double(d), T.bnot(T.eq(p, V_.str_code('even'))))
    for w, case in cases.items():
        k.verify(CLS + '.__call__', f'circuit[new layer {w}]', lambda I: {'args': []}, fullpost, base + [T.le(ONE, K)], deps, call=lambda I, ctx, case=case: full(I, ctx, case))
