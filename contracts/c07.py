"""C07: stopping and perturbation protocol, stated over the costs the optimiser itself recorded."""
from contracts.optspec import *


def extended(I, costs, nsteps):
    """the recorded cost sequence as a function of the iteration (also past the stop)"""
    sg = list(I.lib.segs(costs))
    if not sg or not isinstance(sg[-1], SegMap) or any(not isinstance(s, Seg1) for s in sg[:-1]):
        raise Unsupported('shape of the cost list')
    return sg[:-1] + [SegMap(nsteps, sg[-1].fn)]


def trigger(I, costs, nsteps, tol, first, back):
    """iteration -> the protocol fires there"""
    sg = extended(I, costs, nsteps)

    def at(j):
        g = T.le(T.const(first), j)
        c = under(I, [T.ge0(j), T.lt(j, nsteps), g],
                  lambda: is_close(to_poly(I.lib.seg_get(sg, to_int(T.add(j, ONE)))), to_poly(I.lib.seg_get(sg, to_int(T.add(j, T.const(1 - back))))), tol))
        return T.band(g, c)
    return at


def stop_at(nsteps, f):
    nm, j = T.newvar('j')
    bn, bb = T.close([nm], f(to_int(j)))
    return to_int(T.mk('stop', nsteps, bn, bb, typ='int').poly())


def fired(I, nsteps, f):
    out = PyList([])

    def body(j):
        j = to_int(to_poly(j))
        if I.decide(f(j)):
            I.lib.list_append(out, [num(j)], {})
    loops.for_loop(I, [SegMap(nsteps, lambda i: num(i))], body)
    return out


def length(I, v):
    return V.seqlen(I.lib.segs(v))


def prove(k):
    eta, tol, nsteps = real('eta'), real('tol'), integer('nsteps')
    OPT = 'oranssi.optimizers.'

    # ---- stop
    def exact(pert):
        return lambda I: exact_inputs(I, {'nsteps': nsteps, 'eta': eta, 'tol': tol, 'perturbation': pert, 'return_perturbations': pert, 'return_state': True})

    def approx(t, pert):
        return lambda I: approx_inputs(I, {'nsteps': nsteps, 'eta': eta, 'tol': t, 'return_state': True, 'return_unitary': True, 'perturb': pert, 'return_perturbations': pert})

    def shift(I):
        return shift_inputs(I, {'nsteps': nsteps, 'eta': eta, 'tol': tol, 'return_state': True})

    def post_stop(t, first, back):
        def post(I, ctx, kind, val, ob):
            def goal():
                M = nsteps if t is None else stop_at(nsteps, trigger(I, val[0], nsteps, t, first, back))
                require(I, T.eq(length(I, val[0]), T.add(M, ONE)), 'number of recorded costs')
                require(I, T.eq(length(I, val[1]), T.add(M, ONE)), 'number of recorded states')
            ob('the run ends at the first iteration the protocol fires, or after nsteps', goal)
        return post

    def post_pert(t, first, back, at):
        def post(I, ctx, kind, val, ob):
            ob('the run never stops early', lambda: require(I, T.eq(length(I, val[0]), T.add(nsteps, ONE)), 'number of recorded costs'))

            def goal():
                want = PyList([]) if t is None else fired(I, nsteps, trigger(I, val[0], nsteps, t, first, back))
                veq(I, val[at], want, 'perturbations')
            ob('perturbations are recorded exactly where the protocol fires', goal)
        return post
    k.verify(OPT + 'exact_lie_optimizer', 'stop', exact(False), post_stop(tol, 4, 1), pre(), [GFO])
    k.verify(OPT + 'exact_lie_optimizer', 'perturb', exact(True), post_pert(tol, 4, 1, 2), pre(), [GFO])
    for t in (None, tol):
        lab = 'None' if t is None else 't'
        k.verify(OPT + 'approximate_lie_optimizer', f'stop[tol={lab}]', approx(t, False), post_stop(t, 9, 5), pre_approx(), [GFO])
        k.verify(OPT + 'approximate_lie_optimizer', f'perturb[tol={lab}]', approx(t, True), post_pert(t, 9, 5, 3), pre_approx(), [GFO])
    k.verify(OPT + 'parameter_shift_optimizer', 'stop', shift, post_stop(tol, 3, 1), pre_shift())

    # ---- the perturbation itself
    def build(I):
        n, Kg = integer('n'), integer('K')
        params = SymObj('params', key='params')
        return {'args': [circuit_fn(I, Kg, params), params, PyList([]), libqml.device(n)],
                'kw': {'nsteps': nsteps, 'eta': eta, 'tol': tol, 'perturbation': True, 'return_unitary': True}, 'n': n, 'K': Kg}

    def post(I, ctx, kind, val, ob):
        n = ctx['n']
        g = Ghost(U=Arr(initial_unitary(I, n, ctx['K'])))

        def body(j):
            if I.decide(T.le(T.const(4), to_int(to_poly(j)))):
                I.set(g, 'U', Arr(perturbed(I, to_poly(g.s['U']), n, eta)))
        fresh_rng(I, lambda: loops.for_loop(I, [SegMap(nsteps, lambda i: num(i))], body))
        ob('without observables every iteration from 4 on multiplies by exp(-(eta/2)A)', lambda: veq(I, val[-1], g.s['U'], 'U'))
    k.verify(OPT + 'exact_lie_optimizer', 'perturbation formula', build, post, pre(), [GFO])

    def build_a(I):
        return approx_inputs(I, {'nsteps': nsteps, 'eta': eta, 'tol': tol, 'return_unitary': True, 'perturb': True}, trace=True)

    def post_a(I, ctx, kind, val, ob):
        n = ctx['n']
        fire = trigger(I, val[0], nsteps, tol, 9, 5)
        got, ret = ctx['trace']
        U0 = initial_unitary(I, n, ctx['K'])
        want = PyList([Seg1(Arr(U0))])

        def body(j):
            j = to_int(to_poly(j))
            U = to_poly(I.lib.seg_get(I.lib.segs(ret), j))
            if I.decide(fire(j)):
                U = perturbed(I, U, n, eta)
            I.lib.list_append(want, [Arr(U)], {})
        fresh_rng(I, lambda: loops.for_loop(I, [SegMap(to_int(T.sub(nsteps, ONE)), lambda i: num(i))], body))
        ob('a layer receives the previous layer\'s unitary, perturbed exactly where the protocol fires', lambda: veq(I, got, want, 'unitaries passed to the layers'))
    k.verify(OPT + 'approximate_lie_optimizer', 'perturbation formula', build_a, post_a, pre_approx(), [GFO])
