"""C05: exact_lie_optimizer follows the Riemannian gradient-flow recursion."""
from contracts.optspec import *


def prove(k):
    eta, tol, nsteps = real('eta'), real('tol'), integer('nsteps')
    for pert in (False, True):
        def build(I):
            kw = {'nsteps': nsteps, 'eta': eta, 'tol': tol, 'return_state': True, 'return_unitary': True, 'perturbation': pert,
                  'return_perturbations': pert}
            return exact_inputs(I, kw)

        def post(I, ctx, kind, val, ob):
            n, m = ctx['n'], ctx['m']
            U0 = initial_unitary(I, n, ctx['K'])
            sp = run_protocol(I, n, m, U0, lambda I, U, j: flow_step(I, U, n, m, eta), nsteps, eta, tol, 4, 1, pert)
            ob('cost sequence', lambda: veq(I, val[0], sp['cost'], 'cost'))
            ob('state sequence', lambda: veq(I, val[1], sp['states'], 'states'))
            if pert:
                ob('perturbations', lambda: veq(I, val[2], sp['perts'], 'perturbations'))
            ob('returned unitary', lambda: veq(I, val[-1], sp['U'], 'U'))
        k.verify('oranssi.optimizers.exact_lie_optimizer', f'trajectory[perturbation={pert}]', build, post, pre(), [GFO])
