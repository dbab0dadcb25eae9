"""C22: parameter-shift optimiser."""
from falsify.common import *
from oranssi.optimizers import parameter_shift_optimizer


def cases(tier, r):
    q = 1 if tier == 'quick' else 6
    for i in range(18 * q):
        n = int(r.randint(1, 4))
        K = int(r.randint(1, 5))
        gates = []
        np_ = 0
        for _ in range(K):
            if n > 1 and r.rand() < 0.4:
                w = [int(x) for x in r.permutation(n)[:2]]
                if r.rand() < 0.5:
                    gates.append(['CNOT', w, None])
                else:
                    gates.append(['PauliRot', w, [np_, ''.join(r.choice(list('XYZ'), 2))]])
                    np_ += 1
            else:
                gates.append([['RX', 'RY', 'RZ'][int(r.randint(3))], [int(r.randint(n))], np_])
                np_ += 1
        if np_ == 0:
            gates.append(['RX', [0], 0])
            np_ = 1
        yield {'t': 'flat', 'n': n, 'g': gates, 'p': [float(x) for x in r.uniform(-3, 3, np_)], 'obs': rand_obs(r, n, int(r.randint(1, 4)), herm=False, maxk=3),
               'eta': [0.1, 0.01, 1.0, 0.0][i % 4], 'nsteps': [1, 2, 4, 6][i % 4], 'tol': [0.0, 1e-3][i % 2], 'fl': [[True, True], [True, False], [False, True], [False, False]][i % 4], 'default': i % 9 == 8}


def build(c, params):
    n = c['n']
    U = np.eye(2 ** n, dtype=complex)
    for g, w, p in c['g']:
        if g == 'PauliRot':
            M = expm(-1j * params[p[0]] / 2 * word(p[1]))
        else:
            M = gate_matrix(g, p, params)
        U = embed(M, w, n).dot(U)
    return U


def run(c):
    n = c['n']
    dev = device(n)
    obs = [make_obs(o) for o in c['obs']]
    full = [obs_matrix(o, n) for o in c['obs']]

    def circuit(params, **kw):
        for g, w, p in c['g']:
            if g == 'PauliRot':
                qml.PauliRot(params[p[0]], p[1], wires=w)
            elif p is None:
                getattr(qml, g)(wires=w)
            else:
                getattr(qml, g)(params[p], wires=w[0])
    f = lambda p: cost(build(c, p), full)

    def grad(p):
        out = np.zeros(len(p))
        for j in range(len(p)):
            e = np.zeros(len(p))
            e[j] = np.pi / 2
            out[j] = (f(p + e) - f(p - e)) / 2
        return out
    eta, nsteps, tol = c['eta'], c['nsteps'], c['tol']
    kw = {'eta': eta, 'nsteps': nsteps, 'tol': tol}
    if c['default']:
        kw = {'nsteps': 2}
        eta, nsteps, tol = 0.1, 2, 1e-3
    p = np.array(c['p'])
    ps = [p]
    for k in range(nsteps):
        p = p - eta * grad(p)
        ps.append(p)
        if k > 2:
            if borderline(f(ps[-1]), f(ps[-2]), tol):
                return
            if isclose(f(ps[-1]), f(ps[-2]), tol):
                break
    given = list(c['p'])
    out = parameter_shift_optimizer(circuit, given, obs, dev, return_state=c['fl'][0], return_params=c['fl'][1], **kw)
    need(given == c['p'], 'parameters changed in place')
    if not any(c['fl']):
        out = (out,)
    costs = [float(x) for x in out[0]]
    need(len(costs) == len(ps), '%d costs, expected %d' % (len(costs), len(ps)))
    close(costs, [f(x) for x in ps], 'costs', 1e-6)
    if c['fl'][0]:
        close(np.array(out[1]), np.array([state(build(c, x)) for x in ps]), 'states', 1e-6)
    if c['fl'][1]:
        close(np.array(out[-1], float), np.array(ps), 'parameters', 1e-6)
