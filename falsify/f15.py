"""C15: rotosolve finds the optimal angle along a Pauli word."""
from falsify.common import *
from oranssi.opt_tools import rotosolve, SquaredLieAlgebraLayer, SU8_AlgebraLayer
from oranssi.circuit_tools import circuit_observable_from_unitary


def cases(tier, r):
    q = 1 if tier == 'quick' else 8
    for i in range(40 * q):
        n = int(r.randint(1, 4))
        k = int(r.randint(1, n + 1))
        yield {'t': 'rotosolve', 'n': n, 'w': ''.join(r.choice(list('XYZ'), k)), 'wires': [int(x) for x in sorted(r.permutation(n)[:k])],
               'obs': rand_obs(r, n, int(r.randint(1, 5)), maxk=3), 's': int(r.randint(10 ** 6)), 'ident': i % 8 == 7}


def run(c):
    n = c['n']
    dev = device(n)
    obs = [make_obs(o) for o in c['obs']]
    full = [obs_matrix(o, n) for o in c['obs']]
    P = embed(word(c['w']), c['wires'], n)
    U = np.eye(2 ** n, dtype=complex) if c['ident'] else rand_unitary(np.random.RandomState(c['s']), 2 ** n)
    U0, P0 = U.copy(), P.copy()
    V, eta = rotosolve(P, obs, qml.QNode(circuit_observable_from_unitary, dev), U, len(c['w']))
    close(U, U0, 'unitary changed')
    close(P, P0, 'operator changed')
    eta = float(eta)
    close(V, expm(-1j * eta / 2 * P0).dot(U0), 'returned unitary = exp(-i eta P/2) U for the returned eta')
    got = cost(V, full)
    best = min(cost(expm(-1j * t / 2 * P0).dot(U0), full) for t in np.linspace(-np.pi, np.pi, 181))
    need(got <= best + 1e-7, 'cost %.9f at the returned angle, %.9f is reachable' % (got, best))
    need(got <= cost(U0, full) + 1e-7, 'cost increased')
