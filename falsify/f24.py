"""C24: calls leave what they are given unchanged and are repeatable."""
from falsify.common import *
import copy
import random
from oranssi.circuit_tools import *
from oranssi.circuit_tools import get_all_su_n_directions, get_hamiltonian_matrix, get_ops_from_qnode, get_full_operator, param_shift_comm
from oranssi.opt_tools import *
from oranssi.opt_tools import rotosolve
from oranssi.optimizers import approximate_lie_optimizer, exact_lie_optimizer, parameter_shift_optimizer
from oranssi.plot_utils import state_to_spherical
from oranssi.utils import operator_2_norm


def cases(tier, r):
    q = 1 if tier == 'quick' else 5
    kinds = ['exact', 'approx', 'shift', 'hamiltonian', 'directions', 'local1', 'local2', 'custom', 'squared', 'su8', 'rotosolve', 'ops', 'shiftcomm', 'norm', 'embed', 'edges', 'bloch']
    for k in kinds:
        for i in range(3 * q):
            n = 3 if k == 'su8' else int([1, 2, 3][i % 3])
            if k in ('local2',):
                n = 2
            g, p = rand_circuit(r, n, 4)
            yield {'t': k, 'n': n, 'g': g, 'p': p, 'obs': rand_obs(r, n, 2), 's': int(r.randint(10 ** 6)), 'rep': 2 + i % 2}


def run(c):
    n, k = c['n'], c['t']
    dev = device(n)
    obs = [make_obs(o) for o in c['obs']]
    r = np.random.RandomState(c['s'])
    U = rand_unitary(r, 2 ** n)
    params = list(c['p'])
    coeffs = [0.5, -1.5]
    fn = circuit_fn(c['g'])
    given = {'obs': obs, 'U': U, 'params': params, 'coeffs': coeffs}
    snap = (list(obs), U.copy(), list(params), list(coeffs))
    layers = [LocalLieAlgebraLayer(dev, obs, 1, eta=0.3), CustomDirectionLieAlgebraLayer(dev, obs, ['X', 'YY' if n > 1 else 'Z'])] if k == 'approx' else None
    lsnap = list(layers) if layers else None
    edges = [(0, 1), (1, 2), (2, 3)]
    dirs = ['X', 'Z']
    P = embed(word('Y'), [0], n)
    P0 = P.copy()

    def shiftc(params, **kw):
        qml.RX(params[0], wires=0)
        qml.RY(params[1] if len(params) > 1 else 0.3, wires=n - 1)

    if k in ('local1', 'local2', 'custom', 'squared', 'su8'):
        L = {'local1': lambda: LocalLieAlgebraLayer(dev, obs, 1, eta=0.3, directions=dirs), 'local2': lambda: LocalLieAlgebraLayer(dev, obs, 2, eta=0.3, trotterize=True),
             'custom': lambda: CustomDirectionLieAlgebraLayer(dev, obs, dirs), 'squared': lambda: SquaredLieAlgebraLayer(dev, obs), 'su8': lambda: SU8_AlgebraLayer(dev, obs)}[k]
        shared = L()
        f = (lambda: shared(U)) if k in ('local1', 'local2', 'custom', 'su8') else (lambda: L()(U))
    else:
        f = {'exact': lambda: exact_lie_optimizer(fn, params, obs, dev, nsteps=3, return_unitary=True, return_state=True),
             'approx': lambda: approximate_lie_optimizer(fn, params, obs, dev, layers, nsteps=3, return_unitary=True, return_state=True),
             'shift': lambda: parameter_shift_optimizer(shiftc, params, obs, dev, nsteps=2, return_params=True, return_state=True),
             'hamiltonian': lambda: get_hamiltonian_matrix(n, obs, coeffs), 'directions': lambda: list(get_all_su_n_directions(U, obs, dev).items()),
             'rotosolve': lambda: rotosolve(P, obs, qml.QNode(circuit_observable_from_unitary, dev), U, 1), 'ops': lambda: get_ops_from_qnode(fn, params, dev),
             'shiftcomm': lambda: param_shift_comm(U, lambda t: expm(-1j * t / 2 * P)), 'norm': lambda: operator_2_norm(U), 'embed': lambda: get_full_operator(P, tuple(range(n)), n),
             'edges': lambda: sorted(get_commuting_set(edges)), 'bloch': lambda: state_to_spherical(np.diag([0.25, 0.75]).astype(complex))}[k]
    first = None
    for i in range(c['rep']):
        random.seed(5)
        out = flatten(f())
        if first is None:
            first = out
        else:
            need(len(first) == len(out), '%s: call %d returned another structure' % (k, i))
            for a, b in zip(first, out):
                if isinstance(a, str):
                    need(a == b, '%s: not repeatable' % k)
                else:
                    close(b, a, '%s: call %d differs from the first' % (k, i))
        need(len(obs) == 2 and all(a is b for a, b in zip(obs, snap[0])), k + ': list of observables changed')
        for o, s in zip(obs, c['obs']):
            close(embed(o.matrix, list(o.wires), n), obs_matrix(s, n), k + ': observable changed')
        close(U, snap[1], k + ': unitary changed')
        need(params == snap[2], k + ': parameters changed')
        need(coeffs == snap[3], k + ': coefficients changed')
        close(P, P0, k + ': operator changed')
        need(edges == [(0, 1), (1, 2), (2, 3)] and dirs == ['X', 'Z'], k + ': list argument changed')
        need(layers is None or all(a is b for a, b in zip(layers, lsnap)), k + ': layers changed')


def flatten(x):
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += flatten(y)
        return out
    if isinstance(x, str):
        return [x]
    return [np.array(x)]
