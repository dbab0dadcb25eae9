"""C04: circuit -> gate list -> initial unitary."""
from falsify.common import *
from oranssi.circuit_tools import get_ops_from_qnode, circuit_state_from_unitary, circuit_observable_from_unitary
from oranssi.optimizers import exact_lie_optimizer, approximate_lie_optimizer
from oranssi.opt_tools import LieLayer


class Noop(LieLayer):
    def __init__(self, dev, obs):
        super().__init__(dev, obs, len(dev.wires))

    def __call__(self, U, *a, **k):
        return U

    def __repr__(self):
        return 'noop'


def cases(tier, r):
    q = 1 if tier == 'quick' else 8
    for i in range(25 * q):
        n = int(r.randint(1, 5))
        g, p = rand_circuit(r, n, int(r.randint(0, 9)) if i else 0)
        yield {'t': 'ops', 'n': n, 'g': g, 'p': p}
    for i in range(16 * q):
        n = int(r.randint(1, 4))
        g, p = rand_circuit(r, n, int(r.randint(0 if i % 5 == 0 else 3, 9)))
        yield {'t': ['exact', 'approx'][i % 2], 'n': n, 'g': g, 'p': p, 'obs': rand_obs(r, n, int(r.randint(1, 4)))}
    for i in range(10):
        n = int(r.randint(1, 4))
        yield {'t': 'readout', 'n': n, 's': int(r.randint(10 ** 6)), 'obs': rand_obs(r, n, 2)}


def run(c):
    n = c['n']
    dev = device(n)
    if c['t'] == 'readout':
        U = rand_unitary(np.random.RandomState(c['s']), 2 ** n)
        close(qml.QNode(circuit_state_from_unitary, dev)(unitary=U), state(U), 'state of a unitary')
        for o in c['obs']:
            close(float(qml.QNode(circuit_observable_from_unitary, dev)(unitary=U, observable=make_obs(o))), cost(U, [obs_matrix(o, n)]), 'expectation')
        raises(AssertionError, lambda: circuit_state_from_unitary(foo=U), 'missing unitary')
        raises(AssertionError, lambda: circuit_observable_from_unitary(unitary=U), 'missing observable')
        return
    fn = circuit_fn(c['g'])
    U = circuit_unitary(c['g'], c['p'], n)
    if c['t'] == 'ops':
        ops, wires = get_ops_from_qnode(fn, list(c['p']), dev)
        need(len(ops) == len(c['g']) == len(wires), 'number of gates')
        for o, w, (g, gw, gp) in zip(ops, wires, c['g']):
            need([int(x) for x in w] == gw, 'wires %s of %s' % (w, g))
            close(o, gate_matrix(g, gp, c['p']), 'matrix of %s' % g)
        return
    obs = [make_obs(o) for o in c['obs']]
    full = [obs_matrix(o, n) for o in c['obs']]
    if c['t'] == 'exact':
        costs, states, V = exact_lie_optimizer(fn, c['p'], obs, dev, nsteps=1, eta=0.0, return_state=True, return_unitary=True)
        close(V, U, 'circuit unitary')
    else:
        costs, states, us = approximate_lie_optimizer(fn, c['p'], obs, dev, [Noop(dev, obs)], nsteps=1, return_state=True, return_unitary=True)
        close(us[0], U, 'circuit unitary')
    close(states[0], state(U), 'initial state')
    close(float(costs[0]), cost(U, full), 'initial cost')
