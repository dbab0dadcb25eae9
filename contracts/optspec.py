"""Specification recursions of the optimisers (ghost programs over exact terms)."""
from contracts.lib import *
from pyded import libnp, loops
from pyded.interp import BreakSig

GFO = 'oranssi.circuit_tools.get_full_operator'
PIp = libnp.pi_poly()


def initial_unitary(I, n, Kg):
    """G_{K-1} ... G_1 G_0, each gate embedded on its wires"""
    return to_poly(iterate(I, Kg, lambda j, s: {'U': Arr(T.matmul(op_full(j, n), to_poly(s['U'])))},
                           U=Arr(T.eye(T.pow2(n))))['U'])


def state_of(U, n):
    return T.matmul(U, libqml.e0(n))


def cost_of(U, n, m):
    v = state_of(U, n)
    return real_pt(Sum(m, lambda i: T.matmul(T.matmul(T.conj(v), obs_full(i, n)), v)))


def commutator_generator(U, O, n):
    """H = g rho g' - g' rho g with g = exp(-i pi/4 O)"""
    v = state_of(U, n)
    rho = T.outer(v, T.conj(v))
    g = T.expm(T.scale(T.mul(T.const(-0.25j), PIp), O))
    gd = T.dagger(g)
    return T.sub(T.matmul(T.matmul(g, rho), gd), T.matmul(T.matmul(gd, rho), g))


def flow_step(I, U, n, m, eta):
    """one pass over the observables: U <- exp(-i eta/2 H(U, O_i)) U"""
    def inner(i, s):
        U = to_poly(s['U'])
        H = commutator_generator(U, obs_full(i, n), n)
        return {'U': Arr(T.matmul(T.expm(T.scale(T.mul(T.const(-0.5j), eta), H)), U))}
    return to_poly(iterate(I, m, inner, U=Arr(U))['U'])


def perturbed(I, U, n, eta):
    """U <- exp(-(eta/2) A) U with A = (R - R^T)/2, R = 0.1 randn"""
    N = T.pow2(n)
    R = T.scale(T.const(0.1), to_poly(I.lib.np.rd_randn([num(N), num(N)], {})))
    A = T.scale(T.const(0.5), T.sub(R, T.transpose(R)))
    return T.matmul(T.expm(T.scale(T.mul(T.const(-0.5), eta), A)), U)


def is_close(a, b, tol):
    """numpy.isclose with rtol 1e-5"""
    return T.ge0(T.sub(T.add(tol, T.smul(T.const(1e-5), T.absval(b))), T.absval(T.sub(a, b))))


def fresh_rng(I, f):
    old = I.rng.s['k']
    I.set(I.rng, 'k', T.ZERO)
    try:
        return f()
    finally:
        I.set(I.rng, 'k', old)


def run_protocol(I, n, m, U0, step, nsteps, eta, tol, first, back, perturb):
    """ghost optimiser loop: step, record, test |cost[-1] - cost[-1-back]| from iteration `first` on"""
    g = Ghost(U=Arr(U0))
    costs = PyList([Seg1(cost_of(U0, n, m))])
    states = PyList([Seg1(Arr(state_of(U0, n)))])
    units = PyList([Seg1(Arr(U0))])
    perts = PyList([])

    def body(j):
        j = to_int(to_poly(j))
        U = step(I, to_poly(g.s['U']), j)
        I.set(g, 'U', Arr(U))
        I.lib.list_append(costs, [cost_of(U, n, m)], {})
        I.lib.list_append(states, [Arr(state_of(U, n))], {})
        I.lib.list_append(units, [Arr(U)], {})
        if tol is None:
            return
        if I.decide(T.le(T.const(first), j)):
            a = to_poly(I.lib.index(costs.segs, -1))
            b = to_poly(I.lib.index(costs.segs, -1 - back))
            if I.decide(is_close(a, b, tol)):
                if perturb:
                    I.lib.list_append(perts, [num(j)], {})
                    I.set(g, 'U', Arr(perturbed(I, U, n, eta)))
                else:
                    raise BreakSig()
    fresh_rng(I, lambda: loops.for_loop(I, [SegMap(nsteps, lambda i: num(i))], body))
    return {'cost': costs, 'states': states, 'units': units, 'perts': perts, 'U': g.s['U']}


def pre(extra=()):
    return [T.le(ONE, integer('n')), T.ge0(integer('m')), T.ge0(integer('K')), T.le(ONE, integer('nsteps')),
            T.ge0(real('eta')), T.le(real('eta'), ONE), T.ge0(real('tol'))] + list(extra)


def exact_inputs(I, kw):
    n, m, Kg = integer('n'), integer('m'), integer('K')
    params = SymObj('params', key='params')
    circ = circuit_fn(I, Kg, params)
    return {'args': [circ, params, observables(m), libqml.device(n)], 'kw': kw, 'n': n, 'm': m, 'K': Kg}


# ------------------------------------------------------------------ approximate optimiser
def layer_obj(I, i, cnt, n, expect_kw, adapt=None, trace=None):
    """the i-th user layer: any function of its index, of the calls made so far and of the unitary.
    The call itself is checked: one positional argument, the keyword arguments of the optimiser."""
    N = T.pow2(n)

    def call(a, kw):
        if len(a) != 1:
            raise NotEqual(f'layer called with {len(a)} positional arguments')
        U = to_poly(a[0])
        c = to_int(to_poly(cnt.s['c']))
        if adapt is None:
            expect_kw(kw)
        I.set(cnt, 'c', num(T.add(c, ONE)))
        r = layer_step(i, c, U, n)
        if trace:
            I.lib.list_append(trace[0], [Arr(U)], {})
            I.lib.list_append(trace[1], [Arr(r)], {})
        return Arr(r)
    o = SymObj('layer', {}, call=call, key=('layer', i), fv=T.t_fv(i))
    o.attrs['su_state'] = Thunk(lambda: sus_obj(i, to_int(to_poly(cnt.s['c']))))
    o.attrs['get_lie_algebra_directions'] = Builtin('directions', lambda a, k: omega_obj(i, to_poly(a[0]), to_int(to_poly(cnt.s['c']))))
    o.isinst = lambda c: getattr(c, 'name', '') == 'LieLayer'
    o.rebuild = lambda m: layer_obj(I, T.t_subst(i, m), cnt, n, expect_kw, adapt, trace)
    return o


def layer_step(i, c, U, n):
    return T.mk('layerstep', i, c, U, shape=(T.pow2(n), T.pow2(n)), typ='complex', unit=True).poly()


def sus_obj(i, c):
    o = SymObj('su', {}, key=('su', i, c), fv=T.t_fv(i) | T.t_fv(c))
    o.rebuild = lambda m: sus_obj(T.t_subst(i, m), T.t_subst(c, m))
    return o


def omega_obj(i, U, c):
    o = SymObj('omega', {}, key=('omega', i, c, U), fv=T.t_fv(i) | T.t_fv(c) | U.fv)
    o.rebuild = lambda m: omega_obj(T.t_subst(i, m), U.subst(m), T.t_subst(c, m))
    return o


def approx_inputs(I, kw, trace=False):
    n, m, Kg, L = integer('n'), integer('m'), integer('K'), integer('L')
    params = SymObj('params', key='params')
    circ = circuit_fn(I, Kg, params)
    cnt = Ghost(c=0)
    tr = (PyList([]), PyList([])) if trace else None

    def expect(k):
        if set(k) != set(kw) or any(not (k[x] is kw[x] or veq_quick_(k[x], kw[x])) for x in kw):
            raise NotEqual(f'layer called with options {sorted(k)} instead of {sorted(kw)}')
    layers = PyList([SegMap(L, lambda i: layer_obj(I, i, cnt, n, expect, trace=tr))])
    return {'args': [circ, params, observables(m), libqml.device(n), layers], 'kw': kw, 'n': n, 'm': m, 'K': Kg, 'L': L, 'cnt': cnt, 'trace': tr}


def veq_quick_(a, b):
    if isinstance(a, (bool, int)) or isinstance(b, (bool, int)):
        return type(a) is type(b) and a == b
    return V.veq_quick(a, b)


def approx_step(I, ctx):
    n, L = ctx['n'], ctx['L']
    return lambda I, U, j: layer_step(I.lib.mod(j, L), j, U, n)


def approx_spec(I, ctx, nsteps, eta, tol, perturb):
    n, m = ctx['n'], ctx['m']
    U0 = initial_unitary(I, n, ctx['K'])
    return run_protocol(I, n, m, U0, approx_step(I, ctx), nsteps, eta, tol, 9, 5, perturb)


def pre_approx(extra=()):
    return pre([T.le(ONE, integer('L'))] + list(extra))


# ------------------------------------------------------------------ parameter-shift optimiser
def param_unitary(p, n):
    N = T.pow2(n)
    return T.mk('paramU', p, shape=(N, N), typ='complex', unit=True).poly()


def shift_inputs(I, kw):
    """params: any real vector; circuit: any unitary function of it, returning nothing"""
    n, m, Pn = integer('n'), integer('m'), integer('P')
    theta = T.mk('var', 'theta', 'real', shape=(Pn,), typ='real').poly()
    params = Arr(theta)

    def paramstate(p, nn):
        return T.matmul(param_unitary(to_poly(p), nn), libqml.e0(nn))

    def call(a, k):
        if len(a) != 1 or k:
            raise Unsupported('circuit called with other arguments')
        if I.queue is not None:
            U = param_unitary(to_poly(a[0]), n)
            I.set(I.queue, 'segs', I.queue.segs + (Seg1(SymObj('qop', {'matrix': Arr(U), 'wires': libqml.device(n).attrs['wires']}, key=('pq', U.key))),))
        return None
    circ = SymObj('circuit', {'paramstate': paramstate, 'ptoken': 'theta'}, call=call, key=('circuit', 'theta'))
    return {'args': [circ, params, observables(m), libqml.device(n)], 'kw': kw, 'n': n, 'm': m, 'theta': theta}


def shift_spec(I, ctx, nsteps, eta, tol):
    """theta <- theta - eta grad sum_i <O_i>; record; test the last two costs from iteration 3 on"""
    n, m, theta = ctx['n'], ctx['m'], ctx['theta']
    M = Sum(m, lambda i: obs_full(i, n))
    cost = lambda p: cost_of(param_unitary(p, n), n, m)
    st = lambda p: state_of(param_unitary(p, n), n)
    g = Ghost(p=Arr(theta))
    costs, states, pars = PyList([Seg1(cost(theta))]), PyList([Seg1(Arr(st(theta)))]), PyList([Seg1(Arr(theta))])

    def body(j):
        j = to_int(to_poly(j))
        p = T.mk('gdstep', eta, (M, 'theta'), to_poly(g.s['p']), shape=theta.shape, typ='real').poly()
        I.set(g, 'p', Arr(p))
        I.lib.list_append(costs, [cost(p)], {})
        I.lib.list_append(states, [Arr(st(p))], {})
        I.lib.list_append(pars, [Arr(p)], {})
        if I.decide(T.le(T.const(3), j)):
            if I.decide(is_close(to_poly(I.lib.index(costs.segs, -1)), to_poly(I.lib.index(costs.segs, -2)), tol)):
                raise BreakSig()
    loops.for_loop(I, [SegMap(nsteps, lambda i: num(i))], body)
    return {'cost': costs, 'states': states, 'params': pars}


def pre_shift(extra=()):
    return pre([T.ge0(integer('P'))] + list(extra))
