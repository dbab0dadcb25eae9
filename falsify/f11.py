"""C11: unitarity check and projection; every step stays on the unitary group."""
from falsify.common import *
from oranssi.opt_tools import *
from oranssi.opt_tools import LieLayer
from oranssi.optimizers import exact_lie_optimizer
from falsify.f10 import local_groups, custom_group


class Raw(object):
    """observable given by a matrix (possibly not hermitian, so that a raw update leaves the unitary group)"""

    def __init__(self, M, wires):
        self.matrix, self.wires = M, qml.wires.Wires(wires)


def polar(M):
    w, V = np.linalg.eigh(M.conj().T.dot(M))
    return M.dot((V / np.sqrt(w)).dot(V.conj().T))


def cases(tier, r):
    q = 1 if tier == 'quick' else 6
    for i in range(24 * q):
        n = int(r.randint(1, 4))
        yield {'t': 'check', 'n': n, 's': int(r.randint(10 ** 6)), 'err': [0, 1e-12, 3e-9, 3e-8, 1e-6, 1e-3, 0.5, 'perm'][i % 8]}
    for i in range(12 * q):
        yield {'t': 'project', 'n': int(r.randint(1, 4)), 's': int(r.randint(10 ** 6))}
    for i in range(24 * q):
        n = [1, 2, 3][i % 3]
        kind = ['local1', 'custom', 'local2'][(i // 3) % 3]
        if kind == 'local2':
            n = 2
        yield {'t': 'layer', 'kind': kind, 'n': n, 'trot': bool((i // 9) % 2), 's': int(r.randint(10 ** 6)), 'nh': [0.0, 1.0, 0.0, 3.0][i % 4], 'uec': i % 5 != 4,
               'eta': [0.1, 1.0][i % 2]}


def run(c):
    r = np.random.RandomState(c['s'])
    n = c['n']
    dev = device(n)
    N = 2 ** n
    if c['t'] in ('check', 'project'):
        L = LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], 1)
        U = rand_unitary(r, N)
        if c['t'] == 'project':
            M = U + 0.3 * (r.randn(N, N) + 1j * r.randn(N, N))
            M0 = M.copy()
            P = L._project_onto_unitary(M)
            close(P.dot(P.conj().T), np.eye(N), 'projection is unitary')
            close(P, polar(M0), 'projection is the closest unitary')
            close(M, M0, 'argument changed')
            close(L._project_onto_unitary(U), U, 'projection of a unitary')
            return
        e = c['err']
        if e == 'perm':
            M = U[::-1] * np.exp(0.3j)
        elif e == 0:
            M = U
        else:
            D = np.zeros((N, N), complex)
            D[r.randint(N), r.randint(N)] = e
            M = U.dot(np.eye(N) + D)
        err = np.max(np.abs(M.dot(M.conj().T) - np.eye(N)))
        if abs(err - 1e-8) < 1e-11:
            return
        got = L._is_unitary(M)
        need(bool(got) == bool(err <= 1e-8), '_is_unitary returned %s at unitarity error %.3e' % (got, err))
        return
    k = 1
    A = rand_herm(r, 2) + 1j * c['nh'] * rand_herm(r, 2)
    w = [int(r.randint(n))]
    kw = {'trotterize': c['trot'], 'unitary_error_check': c['uec'], 'eta': c['eta']}
    obs = [Raw(A, w)]
    if c['kind'] == 'custom':
        layer, groups = CustomDirectionLieAlgebraLayer(dev, obs, None, **kw), custom_group(n, None)
    else:
        loc = int(c['kind'][-1])
        layer, groups = LocalLieAlgebraLayer(dev, obs, loc, **kw), local_groups(n, loc, None)
    U = rand_unitary(r, N)
    v = state(U)
    O = embed(A, w, n)
    exp = U
    for g in groups:
        gens = [omega(P, O, v) * P for P in g] if c['trot'] else [sum(omega(P, O, v) * P for P in g)]
        for G in gens:
            E = expm(-c['eta'] / N * G)
            if c['uec'] and np.max(np.abs(E.dot(E.conj().T) - np.eye(N))) > 1e-8:
                E = polar(E)
            exp = E.dot(exp)
    got = np.asarray(layer(U))
    close(got, exp, 'layer with unitary_error_check=%s' % c['uec'], 1e-6)
    if c['uec']:
        close(got.dot(got.conj().T), np.eye(N), 'unitarity with unitary_error_check')
