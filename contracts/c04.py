"""C04: gate extraction, initial unitary, state and cost; the read-out circuits."""
from contracts.optspec import *

ASSUMPTIONS = ['qml.QNode records the operations of the quantum function in call order and evaluates them on |0...0> of the device wires; op.matrix and op.wires are the gate and its wires']
CT = 'oranssi.circuit_tools.'


def prove(k):
    n, m, Kg = integer('n'), integer('m'), integer('K')
    N = T.pow2(n)
    base = [T.le(ONE, n), T.ge0(m), T.ge0(Kg)]

    def build(I):
        params = SymObj('params', key='params')
        return {'args': [circuit_fn(I, Kg, params), params, libqml.device(n)]}

    def post(I, ctx, kind, val, ob):
        if not ob('a pair of lists', isinstance(val, tuple) and len(val) == 2):
            return
        ob('gate matrices in application order', lambda: veq(I, val[0], PyList([SegMap(Kg, lambda i: I.attr(op_obj(i), 'matrix'))]), 'gates'))
        ob('wires in application order', lambda: veq(I, val[1], PyList([SegMap(Kg, lambda i: I.attr(I.attr(op_obj(i), 'wires'), 'labels'))]), 'wires'))
    k.verify(CT + 'get_ops_from_qnode', 'extraction', build, post, base)

    # read-out circuits, run through a QNode on a device of n wires
    U = matrix('U', N, unit=True)

    def readout(fn, kw):
        def call(I, ctx):
            f = I.lookup_qual(CT + fn)
            I.under.add(CT + fn)
            q = I.lib.qml.q_QNode([f, libqml.device(n)], {})
            kw_ = {a: copied(b) for a, b in kw.items()}
            begin(I, ctx)
            return I.call(q, [], kw_)
        return call
    k.verify(CT + 'circuit_state_from_unitary', 'state', lambda I: {'args': []},
             lambda I, c, kind, val, ob: ob('U|0...0>', lambda: veq(I, val, Arr(state_of(U, n)), 'state')), base, call=readout('circuit_state_from_unitary', {'unitary': Arr(U)}))
    v = state_of(U, n)
    j = integer('j')
    k.verify(CT + 'circuit_observable_from_unitary', 'expectation', lambda I: {'args': []},
             lambda I, c, kind, val, ob: ob('<0|U^dagger O U|0>', lambda: veq(I, val, real_pt(T.matmul(T.matmul(T.conj(v), obs_full(j, n)), v)), 'value')),
             base, call=readout('circuit_observable_from_unitary', {'unitary': Arr(U), 'observable': obs_obj(j)}))
    # called directly: returns the measurement of exactly the given observable
    k.verify(CT + 'circuit_observable_from_unitary', 'measures the given observable', lambda I: {'args': [], 'kw': {'unitary': Arr(U), 'observable': obs_obj(j)}},
             lambda I, c, kind, val, ob: (ob('an expectation value', isinstance(val, SymObj) and val.attrs.get('what') == 'expval') and
                                          ob('of the observable', lambda: veq(I, val.attrs['obs'], obs_obj(j), 'observable'))), base)
    k.verify(CT + 'circuit_state_from_unitary', 'returns the state', lambda I: {'args': [], 'kw': {'unitary': Arr(U)}},
             lambda I, c, kind, val, ob: ob('a state measurement', isinstance(val, SymObj) and val.attrs.get('what') == 'state'), base)
    for fn, kws in [('circuit_state_from_unitary', [{}, {'observable': obs_obj(j)}]),
                    ('circuit_observable_from_unitary', [{}, {'unitary': Arr(U)}, {'observable': obs_obj(j)}])]:
        for kw in kws:
            k.verify(CT + fn, f'rejects[{"+".join(kw) or "nothing"}]', lambda I: {'args': [], 'kw': dict(kw)},
                     lambda I, c, kind, val, ob: ob('AssertionError', kind == 'raise' and val.exc == 'AssertionError'), base, expect=('raise', 'return'))

    # the optimisers start from the circuit's unitary
    eta, tol, nsteps = real('eta'), real('tol'), integer('nsteps')

    def first(I, ctx, val, ob, unit=None):
        U0 = initial_unitary(I, ctx['n'], ctx['K'])
        ob('first cost: sum of the expectation values in U_0|0...0>', lambda: veq(I, I.lib.index(I.lib.segs(val[0]), 0), cost_of(U0, ctx['n'], ctx['m']), 'cost'))
        ob('first state: U_0|0...0>', lambda: veq(I, I.lib.index(I.lib.segs(val[1]), 0), Arr(state_of(U0, ctx['n'])), 'state'))
        if unit is not None:
            ob('initial unitary: product of the embedded gates, later gates on the left', lambda: veq(I, I.lib.index(I.lib.segs(val[unit]), 0), Arr(U0), 'unitary'))
    k.verify('oranssi.optimizers.exact_lie_optimizer', 'initial values', lambda I: exact_inputs(I, {'nsteps': nsteps, 'eta': eta, 'tol': tol, 'return_state': True}),
             lambda I, ctx, kind, val, ob: first(I, ctx, val, ob), pre(), [GFO])
    k.verify('oranssi.optimizers.approximate_lie_optimizer', 'initial values',
             lambda I: approx_inputs(I, {'nsteps': nsteps, 'eta': eta, 'tol': tol, 'return_state': True, 'return_unitary': True}),
             lambda I, ctx, kind, val, ob: first(I, ctx, val, ob, 2), pre_approx(), [GFO])
    # a run without observables: the returned unitary is the initial one
    def build0(I):
        c = exact_inputs(I, {'nsteps': nsteps, 'eta': eta, 'tol': tol, 'return_unitary': True})
        c['args'][2] = PyList([])
        return c
    k.verify('oranssi.optimizers.exact_lie_optimizer', 'initial unitary', build0,
             lambda I, ctx, kind, val, ob: ob('product of the embedded gates, later gates on the left', lambda: veq(I, val[-1], Arr(initial_unitary(I, ctx['n'], ctx['K'])), 'unitary')), pre(), [GFO])
