"""C22: parameter_shift_optimizer is gradient descent on the summed cost."""
from contracts.optspec import *

ASSUMPTIONS = ['qml.GradientDescentOptimizer(eta).step_and_cost(f, p) returns p - eta grad f(p) and f(p); qml.ExpvalCost(circuit, H, dev)(p) is <H> in the state circuit(p) prepares']


def prove(k):
    eta, tol, nsteps = real('eta'), real('tol'), integer('nsteps')

    def build(I):
        return shift_inputs(I, {'nsteps': nsteps, 'eta': eta, 'tol': tol, 'return_state': True, 'return_params': True})

    def post(I, ctx, kind, val, ob):
        sp = shift_spec(I, ctx, nsteps, eta, tol)
        ob('cost sequence', lambda: veq(I, val[0], sp['cost'], 'cost'))
        ob('state sequence', lambda: veq(I, val[1], sp['states'], 'states'))
        ob('parameter sequence', lambda: veq(I, val[2], sp['params'], 'params'))
    k.verify('oranssi.optimizers.parameter_shift_optimizer', 'descent', build, post, pre_shift())
