"""C05: exact Riemannian flow trajectory."""
from falsify.common import *
from oranssi.optimizers import exact_lie_optimizer


def cases(tier, r):
    q = 1 if tier == 'quick' else 10
    for i in range(28 * q):
        n = int(r.randint(1, 4))
        g, p = rand_circuit(r, n, int(r.randint(1, 7)))
        yield {'t': 'flow', 'n': n, 'g': g, 'p': p, 'obs': rand_obs(r, n, int(r.randint(1, 4)), maxk=3),
               'eta': [0.1, 0.37, 1.0, 0.0, float(r.rand())][i % 5], 'nsteps': int([1, 2, 3, 5, 7, 9][i % 6]),
               'tol': [0.0, 1e-12, 1e-3][i % 3], 'pert': i % 4 == 3}
    for i in range(4 * q):
        n = int(r.randint(1, 3))
        g, p = rand_circuit(r, n, 4)
        yield {'t': 'long', 'n': n, 'g': g, 'p': p, 'obs': rand_obs(r, n, 2), 'eta': 0.3, 'nsteps': 20, 'tol': 1e-4, 'pert': i % 2 == 1}


def trajectory(U, full, nsteps, eta, tol, pert):
    costs, states, perts = [cost(U, full)], [state(U)], []
    for step in range(nsteps):
        U = flow_step(U, full, eta)
        costs.append(cost(U, full))
        states.append(state(U))
        if step > 3:
            if borderline(costs[-1], costs[-2], tol):
                return None
            if isclose(costs[-1], costs[-2], tol):
                if not pert:
                    break
                perts.append(step)
                U = perturb_matrix(U.shape[0], eta).dot(U)
    return costs, states, perts, U


def run(c):
    n = c['n']
    dev = device(n)
    obs = [make_obs(o) for o in c['obs']]
    full = [obs_matrix(o, n) for o in c['obs']]
    np.random.seed(7)
    exp = trajectory(circuit_unitary(c['g'], c['p'], n), full, c['nsteps'], c['eta'], c['tol'], c['pert'])
    if exp is None:
        return
    np.random.seed(7)
    out = exact_lie_optimizer(circuit_fn(c['g']), c['p'], obs, dev, nsteps=c['nsteps'], eta=c['eta'], tol=c['tol'], return_state=True,
                              return_unitary=True, perturbation=c['pert'], return_perturbations=c['pert'])
    close(np.array(out[0], float), exp[0], 'cost sequence')
    need(len(out[1]) == len(exp[1]), 'number of states')
    close(np.array(out[1]), np.array(exp[1]), 'states')
    if c['pert']:
        need([int(x) for x in out[2]] == exp[2], 'perturbed steps %s, expected %s' % (out[2], exp[2]))
    close(out[-1], exp[3], 'final unitary')
    close(np.asarray(out[-1]).dot(np.asarray(out[-1]).conj().T), np.eye(2 ** n), 'unitarity')
