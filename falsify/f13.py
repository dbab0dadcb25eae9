"""C13: gradient read-out."""
from falsify.common import *
from oranssi.circuit_tools import get_all_su_n_directions
from oranssi.opt_tools import *
from oranssi.optimizers import approximate_lie_optimizer


def grads(U, full, n):
    v = state(U)
    return {w: sum(omega(word(w), O, v).imag for O in full) / 2 ** n for w in words(n, 'IXYZ')}


def cases(tier, r):
    q = 1 if tier == 'quick' else 6
    for i in range(24 * q):
        n = [1, 2, 3, 2, 1, 2, 3, 4][i % 8]
        yield {'t': 'direct', 'n': n, 'obs': rand_obs(r, n, int(r.randint(0 if i % 6 == 5 else 1, 4)), maxk=3), 's': int(r.randint(10 ** 6))}
    for i in range(6 * q):
        yield {'t': 'layer', 'n': 3 if i % 6 == 4 else 2, 'k': i % 6, 'obs': rand_obs(r, 2, 2), 's': int(r.randint(10 ** 6))}
    for i in range(3 * q):
        g, p = rand_circuit(r, 2, 4)
        yield {'t': 'opt', 'n': 2, 'g': g, 'p': p, 'obs': rand_obs(r, 2, 2), 'nsteps': 3}


def same(got, exp):
    need(list(got.keys()) == list(exp.keys()), 'keys %s' % list(got.keys())[:5])
    for k in exp:
        need(np.ndim(got[k]) == 0, 'value of %s is not a scalar' % k)
        close(float(got[k]), exp[k], 'gradient along %s' % k)


def run(c):
    n = c['n']
    dev = device(n)
    obs = [make_obs(o) for o in c['obs']]
    full = [obs_matrix(o, n) for o in c['obs']]
    if c['t'] == 'opt':
        L = [LocalLieAlgebraLayer(dev, obs, 1, eta=0.5), SquaredLieAlgebraLayer(dev, obs)]
        costs, om, us = approximate_lie_optimizer(circuit_fn(c['g']), c['p'], obs, dev, L, nsteps=c['nsteps'], return_omegas=True, return_unitary=True)
        for k in range(c['nsteps']):
            same(om[k], grads(us[k + 1], full, n))
        return
    U = rand_unitary(np.random.RandomState(c['s']), 2 ** n)
    U0 = U.copy()
    if c['t'] == 'direct':
        got = get_all_su_n_directions(U, obs, dev)
    else:
        mk = [lambda: LocalLieAlgebraLayer(dev, obs, 1), lambda: CustomDirectionLieAlgebraLayer(dev, obs, ['X']), lambda: SquaredLieAlgebraLayer(dev, obs),
              lambda: AdaptVQELayer(dev, obs), lambda: SU8_AlgebraLayer(dev, obs), lambda: StochasticLieAlgebraLayer(dev, obs)][c['k']]
        got = mk().get_lie_algebra_directions(U)
    same(got, grads(U0, full, n))
    close(U, U0, 'unitary changed')
