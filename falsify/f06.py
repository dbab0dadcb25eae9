"""C06: approximate optimiser applies the layers cyclically and records aligned sequences."""
from falsify.common import *
from oranssi.optimizers import approximate_lie_optimizer
from oranssi.opt_tools import LieLayer, LocalLieAlgebraLayer, CustomDirectionLieAlgebraLayer, SU8_AlgebraLayer


class Stub(LieLayer):
    """multiplies by its own sequence of unitaries and logs what it received"""

    def __init__(self, dev, obs, seed, tag, log):
        super().__init__(dev, obs, len(dev.wires))
        self.r = np.random.RandomState(seed)
        self.tag, self.log = tag, log
        self.su_state = tag

    def __call__(self, U, *a, **kw):
        V = rand_unitary(self.r, 2 ** self.nqubits)
        out = V.dot(U)
        self.log.append((self.tag, np.array(U), out.copy(), dict(kw)))
        return out

    def get_lie_algebra_directions(self, U):
        return {'tag': self.tag, 'U': np.array(U)}

    def __repr__(self):
        return 'stub ' + self.tag


def cases(tier, r):
    q = 1 if tier == 'quick' else 8
    for i in range(20 * q):
        n = int(r.randint(1, 4))
        g, p = rand_circuit(r, n, int(r.randint(0, 6)))
        yield {'t': 'stub', 'n': n, 'g': g, 'p': p, 'obs': rand_obs(r, n, int(r.randint(1, 4))), 'L': int(1 + i % 4),
               'nsteps': int([1, 2, 3, 5, 7, 8][i % 6]), 's': int(r.randint(10 ** 6))}
    for i in range(8 * q):
        n = [2, 2, 3, 2][i % 4]
        g, p = rand_circuit(r, n, 4)
        yield {'t': 'real', 'n': n, 'g': g, 'p': p, 'obs': rand_obs(r, n, int(r.randint(1, 3))), 'nsteps': int(r.randint(2, 6)), 'k': i}
    for i in range(4 * q):
        g, p = rand_circuit(r, 2, 4)
        yield {'t': 'longrun', 'n': 2, 'g': g, 'p': p, 'obs': rand_obs(r, 2, 2), 'L': 3, 'nsteps': 14, 's': int(r.randint(10 ** 6))}


def run(c):
    n = c['n']
    dev = device(n)
    obs = [make_obs(o) for o in c['obs']]
    full = [obs_matrix(o, n) for o in c['obs']]
    U = circuit_unitary(c['g'], c['p'], n)
    if c['t'] == 'real':
        mk = [lambda: [LocalLieAlgebraLayer(dev, obs, 1, eta=0.4)],
              lambda: [LocalLieAlgebraLayer(dev, obs, 1, eta=0.4, trotterize=True), CustomDirectionLieAlgebraLayer(dev, obs, ['X', 'ZZ'], eta=0.3)],
              lambda: [SU8_AlgebraLayer(dev, obs), LocalLieAlgebraLayer(dev, obs, 1)],
              lambda: [LocalLieAlgebraLayer(dev, obs, 2, eta=0.9), CustomDirectionLieAlgebraLayer(dev, obs, ['Y', 'XX'], eta=0.3, trotterize=True)]][c['k'] % 4]
        layers = mk()
        ref = mk()
        costs, states, us = approximate_lie_optimizer(circuit_fn(c['g']), c['p'], obs, dev, layers, nsteps=c['nsteps'], tol=None, return_state=True, return_unitary=True)
        V = U
        exp = [V]
        for s in range(c['nsteps']):
            V = ref[s % len(ref)](V)
            exp.append(V)
        need(len(costs) == len(states) == len(us) == c['nsteps'] + 1, 'lengths')
        close(np.array(us), np.array(exp), 'unitaries')
        close(np.array(states), np.array([state(x) for x in exp]), 'states')
        close(np.array(costs, float), [cost(x, full) for x in exp], 'costs')
        return
    log = []
    layers = [Stub(dev, obs, c['s'] + k, 'L%d' % k, log) for k in range(c['L'])]
    given = list(layers)
    out = approximate_lie_optimizer(circuit_fn(c['g']), c['p'], obs, dev, layers, nsteps=c['nsteps'], tol=None, return_state=True,
                                    return_unitary=True, return_omegas=True, return_zassenhaus=True, extra_option=3)
    costs, states, omegas, us, zas = out
    N = c['nsteps']
    need(len(layers) == len(given) and all(a is b for a, b in zip(layers, given)), 'layers list changed')
    need([x[0] for x in log] == ['L%d' % (s % c['L']) for s in range(N)], 'layer order %s' % [x[0] for x in log])
    need(len(costs) == len(states) == len(us) == N + 1 and len(omegas) == len(zas) == N, 'lengths %s' % [len(x) for x in out])
    V = U
    close(us[0], V, 'initial unitary')
    for s in range(N):
        close(log[s][1], V, 'unitary passed to layer at step %d' % s)
        need(log[s][3].get('extra_option') == 3 and log[s][3].get('nsteps') == N, 'options not forwarded to the layer')
        V = log[s][2]
        close(us[s + 1], V, 'unitary %d' % (s + 1))
        close(states[s + 1], state(V), 'state %d' % (s + 1))
        close(float(costs[s + 1]), cost(V, full), 'cost %d' % (s + 1))
        need(omegas[s]['tag'] == 'L%d' % (s % c['L']), 'omegas from another layer')
        close(omegas[s]['U'], V, 'omegas evaluated elsewhere')
        need(zas[s] == 'L%d' % (s % c['L']), 'su_state from another layer')
    close(states[0], state(U), 'state 0')
    close(float(costs[0]), cost(U, full), 'cost 0')
