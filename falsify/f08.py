"""C08: what is returned for every combination of return flags."""
from falsify.common import *
import itertools
from oranssi.optimizers import approximate_lie_optimizer, exact_lie_optimizer, parameter_shift_optimizer
from falsify.f06 import Stub


def cases(tier, r):
    for n in ((1, 2) if tier == 'quick' else (1, 2, 3)):
        g, p = rand_circuit(r, n, 3)
        obs = rand_obs(r, n, 2)
        for fl in itertools.product([False, True], repeat=2):
            for q in itertools.product([None, False, True], repeat=2):
                yield {'t': 'exact', 'n': n, 'g': g, 'p': p, 'obs': obs, 'state': q[0], 'unitary': q[1], 'pert': fl[0], 'rpert': fl[0] and fl[1]}
        for fl in itertools.product([False, True], repeat=6):
            yield {'t': 'approx', 'n': n, 'g': g, 'p': p, 'obs': obs, 'fl': list(fl)}
            if n == 1:
                yield {'t': 'approx', 'n': n, 'g': g, 'p': p, 'obs': obs, 'fl': list(fl), 'perturb': True}
        for q in itertools.product([None, False, True], repeat=2):
            yield {'t': 'shift', 'n': n, 'obs': [['P', 'Z', [0]]], 'state': q[0], 'params': q[1], 'p': [0.4, 1.1]}


def run(c):
    n = c['n']
    dev = device(n)
    obs = [make_obs(o) for o in c['obs']]
    if c['t'] == 'exact':
        kw = {'nsteps': 6, 'tol': 10.0, 'perturbation': c['pert'], 'return_perturbations': c['rpert']}
        if c['state'] is not None:
            kw['return_state'] = c['state']
        if c['unitary'] is not None:
            kw['return_unitary'] = c['unitary']
        out = exact_lie_optimizer(circuit_fn(c['g']), c['p'], obs, dev, **kw)
        steps = 6 if c['pert'] else 5
        parts = [('cost', True), ('state', bool(c['state'])), ('pert', c['rpert']), ('unitary', bool(c['unitary']))]
    elif c['t'] == 'approx':
        names = ['state', 'omegas', 'unitary', 'gates', 'perturbations', 'zassenhaus']
        kw = {'return_' + k: v for k, v in zip(names, c['fl']) if v or c['fl'][0]}
        log = []
        layers = [Stub(dev, obs, 5, 'A', log), Stub(dev, obs, 6, 'B', log)]
        steps = 12 if c.get('perturb') else 3
        if c.get('perturb'):
            kw.update(perturb=True, tol=100.0)
        out = approximate_lie_optimizer(circuit_fn(c['g']), c['p'], obs, dev, layers, nsteps=steps, **kw)
        parts = [('cost', True)] + [({'perturbations': 'pertA', 'unitary': 'unitaries'}.get(k, k), v) for k, v in zip(names, c['fl'])]
    else:
        kw = {}
        if c['state'] is not None:
            kw['return_state'] = c['state']
        if c['params'] is not None:
            kw['return_params'] = c['params']

        def circ(params, **k):
            qml.RX(params[0], wires=0)
            qml.RY(params[1], wires=0)
        out = parameter_shift_optimizer(circ, list(c['p']), obs, dev, nsteps=3, tol=0.0, eta=0.1, **kw)
        steps = 3
        parts = [('cost', True), ('state', bool(c['state'])), ('params', bool(c['params']))]
    want = [k for k, v in parts if v]
    if len(want) == 1:
        need(isinstance(out, list), 'no extras requested: expected the bare cost list, got %s' % type(out).__name__)
        out = (out,)
    else:
        need(isinstance(out, tuple) and len(out) == len(want), 'returned %s values, expected %s' % (len(out), want))
    for k, v in zip(want, out):
        if k == 'cost':
            need(len(v) == steps + 1, 'cost length %d, expected %d' % (len(v), steps + 1))
            need(all(np.ndim(x) == 0 for x in v), 'costs are not scalars')
        elif k in ('state',):
            need(len(v) == steps + 1 and all(np.shape(x) == (2 ** n,) for x in v), 'states')
        elif k == 'unitary':
            need(np.shape(v) == (2 ** n, 2 ** n), 'unitary')
        elif k == 'unitaries':
            need(len(v) == steps + 1 and all(np.shape(x) == (2 ** n, 2 ** n) for x in v), 'unitaries')
        elif k == 'omegas':
            need(len(v) == steps and all(isinstance(x, dict) for x in v), 'omegas')
        elif k == 'gates':
            need(isinstance(v, list) and len(v) == 0, 'gates')
        elif k == 'pert':
            need([int(x) for x in v] == [4, 5], 'perturbations %s' % (v,))
        elif k == 'pertA':
            need([int(x) for x in v] == ([9, 10, 11] if c.get('perturb') else []), 'perturbations %s' % (v,))
        elif k == 'zassenhaus':
            need(list(v) == (['A', 'B'] * 6)[:steps], 'zassenhaus %s' % (v,))
        elif k == 'params':
            need(len(v) == steps + 1 and all(np.shape(x) == (2,) for x in v), 'params')
