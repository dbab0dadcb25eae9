"""C07: stopping and perturbation protocol."""
from falsify.common import *
from oranssi.optimizers import approximate_lie_optimizer, exact_lie_optimizer, parameter_shift_optimizer
from oranssi.opt_tools import LieLayer
from falsify import f05


class Follow(LieLayer):
    """one qubit, observable Z: makes the cost follow a prescribed sequence of angles"""

    def __init__(self, dev, obs, angles, log):
        super().__init__(dev, obs, 1)
        self.angles, self.k, self.log = angles, 0, log

    def __call__(self, U, *a, **kw):
        self.log.append(np.array(U))
        t = self.angles[self.k]
        self.k += 1
        return expm(-1j * t / 2 * PAULI['Y'])

    def __repr__(self):
        return 'follow'


def seqs(r):
    """cost sequences of length nsteps+1 (first is the initial one)"""
    N = 16
    base = list(r.uniform(-0.9, 0.9, N + 1))
    yield 'random', base
    for j in range(1, N + 1):       # cost[j] close to cost[j-5] only
        s = list(base)
        if j >= 5:
            s[j] = s[j - 5] + 1e-4
            yield 'hit%d' % j, s
    yield 'const', [0.3] * (N + 1)
    for d in (1, 2, 3, 4, 6):       # close to another earlier cost: must not stop
        s = list(r.uniform(-0.9, 0.9, N + 1))
        for j in range(d, N + 1):
            s[j] = s[j % d] if d != 5 else s[j]
        if d in (4, 6) or True:
            yield 'lag%d' % d, s


def cases(tier, r):
    for tag, s in seqs(r):
        for pert in (False, True):
            for tol in (1e-3, None):
                if tol is None and not tag.startswith(('const', 'lag5', 'hit12')):
                    continue
                yield {'t': 'approx', 'tag': tag, 'costs': [float(x) for x in s], 'pert': pert, 'tol': tol, 'eta': 0.5}
    for i in range(6):
        s = [float(x) for x in r.uniform(-0.9, 0.9, 15)]
        d = [0.9e-2, 1.1e-2, 0.05, 0.2, 1e-9, 5e-2][i]
        s[12] = s[7] + d
        yield {'t': 'approx', 'tag': 'tol', 'costs': s, 'pert': False, 'tol': [1e-2, 1e-2, 0.1, 0.1, 0.0, 0.04][i], 'eta': 0.2}
    for i in range(10 if tier == 'quick' else 60):
        n = int(r.randint(1, 3))
        g, p = rand_circuit(r, n, 4)
        yield {'t': 'exact', 'n': n, 'g': g, 'p': p, 'obs': rand_obs(r, n, 2), 'eta': [0.0, 0.1, 0.9][i % 3], 'nsteps': [3, 4, 5, 6, 12][i % 5],
               'tol': [1e-3, 0.5, 0.0, 10.0][i % 4], 'pert': i % 2 == 1}
    for i in range(8):
        yield {'t': 'shift', 'p': [float(x) for x in r.uniform(-2, 2, 2)], 'eta': [0.0, 0.1, 0.3, 1e-9][i % 4], 'nsteps': [2, 3, 4, 5, 9][i % 5], 'tol': [1e-3, 0.0, 0.3, 5.0][(i // 2) % 4]}


def run(c):
    if c['t'] == 'exact':
        return f05.run(c)
    if c['t'] == 'shift':
        return shift(c)
    dev = device(1)
    obs = [qml.PauliZ(0)]
    s = c['costs']
    ang = [float(np.arccos(x)) for x in s]
    log = []
    nsteps = len(s) - 1

    def circuit(params, **kw):
        qml.RY(ang[0], wires=0)
        return qml.state()
    exp, perts, stop = [s[0]], [], None
    for k in range(nsteps):
        exp.append(s[k + 1])
        if c['tol'] is not None and k > 8 and isclose(exp[-1], exp[-6], c['tol']):
            if c['pert']:
                perts.append(k)
            else:
                break
    kw = {'tol': c['tol'], 'eta': c['eta'], 'perturb': c['pert'], 'return_perturbations': True, 'return_unitary': True}
    np.random.seed(11)
    costs, us, got = approximate_lie_optimizer(circuit, [], obs, dev, [Follow(dev, obs, ang[1:], log)], nsteps=nsteps, **kw)
    need(len(costs) == len(exp), '%d costs, expected %d' % (len(costs), len(exp)))
    close(np.array(costs, float), exp, 'costs')
    need([int(x) for x in got] == perts, 'perturbed steps %s, expected %s' % (got, perts))
    np.random.seed(11)
    for k in range(len(exp) - 1):
        prev = expm(-1j * ang[k] / 2 * PAULI['Y'])
        if k - 1 in perts:
            prev = perturb_matrix(2, c['eta']).dot(prev)
        close(log[k], prev, 'unitary entering step %d' % k)
        close(us[k + 1], expm(-1j * ang[k + 1] / 2 * PAULI['Y']), 'recorded unitary')


def shift(c):
    dev = device(2)

    def circuit(params, **kw):
        qml.RX(params[0], wires=0)
        qml.RY(params[1], wires=1)
    obs = [qml.PauliZ(0), qml.PauliZ(1)]
    p = np.array(c['p'])
    f = lambda p: np.cos(p[0]) + np.cos(p[1])
    costs, pars = [f(p)], [p]
    for k in range(c['nsteps']):
        p = p + c['eta'] * np.sin(p)
        costs.append(f(p))
        pars.append(p)
        if k > 2:
            if borderline(costs[-1], costs[-2], c['tol']):
                return
            if isclose(costs[-1], costs[-2], c['tol']):
                break
    got, gp = parameter_shift_optimizer(circuit, list(c['p']), obs, dev, nsteps=c['nsteps'], eta=c['eta'], tol=c['tol'], return_params=True)
    need(len(got) == len(costs), '%d costs, expected %d' % (len(got), len(costs)))
    close(np.array([float(x) for x in got]), costs, 'costs', 1e-6)
    close(np.array(gp, float), np.array(pars), 'parameters', 1e-6)
