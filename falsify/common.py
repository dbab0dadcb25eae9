"""Builders of concrete inputs for the real code (PennyLane objects)."""
import numpy as np
import pennylane as qml
from falsify.oracle import *

PL = {'X': qml.PauliX, 'Y': qml.PauliY, 'Z': qml.PauliZ, 'I': qml.Identity}


def device(n):
    return qml.device('default.qubit', wires=n)


def make_obs(spec):
    """spec: ['P', word, wires] or ['H', seed, wires]"""
    kind, a, wires = spec
    if kind == 'P':
        o = PL[a[0]](wires[0])
        for c, w in zip(a[1:], wires[1:]):
            o = o @ PL[c](w)
        return o
    return qml.Hermitian(rand_herm(np.random.RandomState(a), 2 ** len(wires)), wires=list(wires))


def obs_matrix(spec, n):
    kind, a, wires = spec
    if kind == 'P':
        return embed(word(a), wires, n)
    return embed(rand_herm(np.random.RandomState(a), 2 ** len(wires)), wires, n)


def rand_obs(r, n, m, herm=True, maxk=2):
    out = []
    for _ in range(m):
        k = int(r.randint(1, min(maxk, n) + 1))
        w = [int(x) for x in r.permutation(n)[:k]]
        if herm and r.rand() < 0.3:
            # PennyLane 0.15.1 mis-orders qml.Hermitian on three unsorted wires: outside the assumed contract of expval
            out.append(['H', int(r.randint(10 ** 6)), w if k < 3 else sorted(w)])
        else:
            out.append(['P', ''.join(r.choice(list('XYZ'), k)), w])
    return out


GATES1 = ['RX', 'RY', 'RZ', 'Hadamard', 'S', 'T']


def rand_circuit(r, n, K):
    """list of gates: [name, wires, parameter index or matrix seed or None]"""
    gates, nparam = [], 0
    for _ in range(K):
        u = r.rand()
        if n >= 2 and u < 0.35:
            w = [int(x) for x in r.permutation(n)[:2]]
            g = ['CNOT', 'CRX', 'U2'][int(r.randint(3))]
            if g == 'CRX':
                gates.append([g, w, nparam])
                nparam += 1
            elif g == 'U2':
                gates.append([g, w, int(r.randint(10 ** 6))])
            else:
                gates.append([g, w, None])
        elif n >= 3 and u < 0.42:
            gates.append(['Toffoli', [int(x) for x in r.permutation(n)[:3]], None])
        else:
            g = GATES1[int(r.randint(len(GATES1)))]
            w = [int(r.randint(n))]
            if g in ('RX', 'RY', 'RZ'):
                gates.append([g, w, nparam])
                nparam += 1
            else:
                gates.append([g, w, None])
    params = [float(x) for x in r.uniform(-3, 3, max(nparam, 1))]
    return gates, params


def circuit_fn(gates, ret='state'):
    def circuit(params, **kwargs):
        for g, w, p in gates:
            if g == 'U2':
                qml.QubitUnitary(rand_unitary(np.random.RandomState(p), 4), wires=w)
            elif p is not None:
                getattr(qml, g)(params[p], wires=w if len(w) > 1 else w[0])
            else:
                getattr(qml, g)(wires=w if len(w) > 1 else w[0])
        if ret == 'state':
            return qml.state()
    return circuit


def gate_matrix(g, p, params):
    c = lambda P, t: expm(-1j * t / 2 * P)
    if g in ('RX', 'RY', 'RZ'):
        return c(PAULI[g[1]], params[p])
    if g == 'Hadamard':
        return np.array([[1, 1], [1, -1]], complex) / np.sqrt(2)
    if g == 'S':
        return np.diag([1, 1j])
    if g == 'T':
        return np.diag([1, np.exp(1j * np.pi / 4)])
    if g == 'CNOT':
        return np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], complex)
    if g == 'CRX':
        M = np.eye(4, dtype=complex)
        M[2:, 2:] = c(PAULI['X'], params[p])
        return M
    if g == 'U2':
        return rand_unitary(np.random.RandomState(p), 4)
    if g == 'Toffoli':
        M = np.eye(8, dtype=complex)
        M[6:, 6:] = PAULI['X']
        return M
    raise KeyError(g)


def circuit_unitary(gates, params, n):
    U = np.eye(2 ** n, dtype=complex)
    for g, w, p in gates:
        U = embed(gate_matrix(g, p, params), w, n).dot(U)
    return U


def raises(exc, f, why):
    try:
        f()
    except exc:
        return
    except Exception as e:
        raise Violation('%s: raised %s(%s) instead of %s' % (why, type(e).__name__, e, getattr(exc, '__name__', exc)))
    raise Violation('%s: accepted, expected %s' % (why, getattr(exc, '__name__', exc)))
