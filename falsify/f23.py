"""C23: adaptive VQE layer."""
from falsify.common import *
from oranssi.opt_tools import AdaptVQELayer
from oranssi.optimizers import parameter_shift_optimizer, approximate_lie_optimizer


def cases(tier, r):
    q = 1 if tier == 'quick' else 4
    for i in range(8 * q):
        n = [2, 3, 4, 3][i % 4]
        yield {'t': 'stub', 'n': n, 'obs': rand_obs(r, n, int(r.randint(1, 4)), herm=False), 's': int(r.randint(10 ** 6)), 'calls': 3, 'rows': i % 2}
    for i in range(3 * q):
        n = [2, 3, 2][i % 3]
        yield {'t': 'real', 'n': n, 'obs': rand_obs(r, n, 2, herm=False), 's': int(r.randint(10 ** 6)), 'calls': 2, 'rows': 0}
    yield {'t': 'driver', 'n': 2, 'obs': [['P', 'X', [1]], ['P', 'ZZ', [0, 1]]], 's': 3, 'nsteps': 2}


def ansatz(layers, params, n):
    H = np.array([[1, 1], [1, -1]], complex) / np.sqrt(2)
    U = np.eye(2 ** n, dtype=complex)
    for j in range(n):
        U = embed(H, [j], n).dot(U)
    for j, (w, kind) in enumerate(layers):
        if kind == 'single':
            sites = [(i,) for i in range(n)]
            ps = params[j][:n]
        elif kind == 'even':
            sites = [(i, i + 1) for i in range(0, n - 1, 2)]
            ps = params[j][:len(sites)]
        else:
            sites = [(i, i + 1) for i in range(1, n - 1, 2)]
            ps = list(params[j][:len(sites)]) + [params[j][-1]]
            sites.append((0, n - 1))
        for s, p in zip(sites, ps):
            U = embed(expm(-1j * p / 2 * word(w)), s, n).dot(U)
    return U


def candidates(U, full, n, previous):
    v = state(U)
    g = lambda w, *q: abs(sum(omega(embed(word(w), q, n), O, v).imag for O in full))
    out = {}
    for w in words(1) + words(2):
        if w == previous:
            continue
        if len(w) == 1:
            out[(w, 'single')] = sum(g(w, i) for i in range(n))
        else:
            out[(w, 'even')] = sum(g(w, i, i + 1) for i in range(0, n - 1, 2))
            out[(w, 'odd')] = sum(g(w, i, i + 1) for i in range(1, n - 1, 2)) + g(w, 0, n - 1)
    return out


def run(c):
    n = c['n']
    dev = device(n)
    obs = [make_obs(o) for o in c['obs']]
    full = [obs_matrix(o, n) for o in c['obs']]
    layer = AdaptVQELayer(dev, obs)
    if c['t'] == 'driver':
        def circ(params, **k):
            for j in range(n):
                qml.Hadamard(wires=j)
            return qml.state()
        given = []
        costs, us = approximate_lie_optimizer(circ, given, obs, dev, [layer], nsteps=c['nsteps'], tol=None, return_unitary=True)
        need(given == [], 'parameters of the caller changed')
        need(len(layer.layers) == c['nsteps'], 'one ansatz layer per step')
        close([float(x) for x in costs], [cost(np.asarray(u), full) for u in us], 'costs')
        need(costs[-1] <= costs[0] + 0.25, 'cost rose')
        return
    r = np.random.RandomState(c['s'])
    U = rand_unitary(r, 2 ** n)
    params = [[float(x) for x in r.uniform(-1, 1, n)] for _ in range(c['rows'])]
    prev = None
    seen = []
    calls = []

    def opt(circuit, p, o, d, **kw):
        calls.append((circuit, p, o, d, kw))
        if c['t'] == 'real':
            return parameter_shift_optimizer(circuit, p, o, d, **kw)
        q = np.array(p, float) + r.uniform(-0.5, 0.5, np.shape(p))
        return [0.0], [np.array(p, float), q]
    for k in range(c['calls']):
        cand = candidates(U, full, n, prev)
        top = max(cand.values())
        given = [list(x) for x in params]
        out, new = layer(U, optimizer=opt, params=params)
        need(params == given, 'parameters of the caller changed')
        need(len(layer.layers) == k + 1, 'one ansatz layer per call')
        L = tuple(layer.layers[-1])
        need([tuple(x) for x in layer.layers[:-1]] == seen, 'earlier ansatz layers changed')
        need(L in cand, 'selected %s again directly after itself or unknown' % (L,))
        need(cand[L] >= top - 1e-6, 'selected %s with gradient %.6f, largest %.6f' % (L, cand[L], top))
        seen.append(L)
        prev = L[0]
        need(calls[-1][1] == given + [[0.1] * n], 'starting parameters %s' % (calls[-1][1],))
        need(calls[-1][4].get('return_params') is True, 'parameters not requested')
        need(len(new) == len(given) + 1 and all(len(x) == n for x in new), 'shape of the returned parameters')
        close(out, ansatz(seen, new, n), 'unitary of the optimised ansatz')
        if c['t'] == 'real':
            need(cost(np.asarray(out), full) <= cost(ansatz(seen, calls[-1][1], n), full) + 1e-6, 'optimised cost above the starting cost')
        params = [list(x) for x in new]
        U = np.asarray(out) if k % 2 == 0 else rand_unitary(r, 2 ** n)
