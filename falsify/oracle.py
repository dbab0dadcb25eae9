"""Independent numpy oracles (no code of /repo is used here)."""
import itertools
import numpy as np

PAULI = {'I': np.array([[1, 0], [0, 1]], complex), 'X': np.array([[0, 1], [1, 0]], complex),
         'Y': np.array([[0, -1j], [1j, 0]], complex), 'Z': np.array([[1, 0], [0, -1]], complex)}


class Violation(AssertionError):
    pass


def need(c, why):
    if not c:
        raise Violation(why)


def close(a, b, why, atol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation('%s: shape %s, expected %s' % (why, a.shape, b.shape))
    if a.size == 0:
        return
    if not np.all(np.isfinite(a.astype(complex))):
        raise Violation('%s: not finite' % why)
    d = np.max(np.abs(a - b))
    if not d <= atol * (1 + np.max(np.abs(b))):
        raise Violation('%s: differs by %.3e (got %s, expected %s)' % (why, d, _short(a), _short(b)))


def _short(x):
    return np.array2string(np.asarray(x).ravel()[:6], precision=5)


def embed(op, wires, n):
    """E(op, wires, n): wires[0] is the most significant factor of op; qubit 0 the most significant of the register"""
    wires = [int(w) for w in wires]
    k = len(wires)
    N = 2 ** n
    op = np.asarray(op)
    M = np.zeros((N, N), complex)
    cols = np.arange(N)
    loc = np.zeros(N, int)
    clear = cols.copy()
    for j, w in enumerate(wires):
        bit = (cols >> (n - 1 - w)) & 1
        loc |= bit << (k - 1 - j)
        clear &= ~(1 << (n - 1 - w))
    for r in range(2 ** k):
        rows = clear.copy()
        for j, w in enumerate(wires):
            if (r >> (k - 1 - j)) & 1:
                rows |= 1 << (n - 1 - w)
        M[rows, cols] += op[r, loc]
    return M


def word(s):
    M = np.ones((1, 1), complex)
    for c in s:
        M = kron(M, PAULI[c])
    return M


def kron(a, b):
    return (a[:, None, :, None] * b[None, :, None, :]).reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def expm(A):
    A = np.asarray(A, complex)
    nrm = max(np.max(np.sum(np.abs(A), axis=0)), 1e-300)
    s = max(0, int(np.ceil(np.log2(nrm))) + 4)
    B = A / 2.0 ** s
    E = np.eye(A.shape[0], dtype=complex)
    term = E
    for k in range(1, 19):
        term = term.dot(B) / k
        E = E + term
    for _ in range(s):
        E = E.dot(E)
    return E


def rand_unitary(r, N):
    q, t = np.linalg.qr(r.randn(N, N) + 1j * r.randn(N, N))
    d = np.diag(t)
    return q * (d / np.abs(d))


def rand_herm(r, N):
    A = r.randn(N, N) + 1j * r.randn(N, N)
    return (A + A.conj().T) / 2


def state(U):
    return np.array(U[:, 0], complex)


def cost(U, obs):
    """obs: list of full matrices"""
    v = state(U)
    return sum((v.conj().dot(O.dot(v))).real for O in obs)


def flow_step(U, obs, eta):
    for O in obs:
        v = state(U)
        rho = np.outer(v, v.conj())
        g = expm(-1j * np.pi / 4 * O)
        H = g.dot(rho).dot(g.conj().T) - g.conj().T.dot(rho).dot(g)
        U = expm(-1j * eta / 2 * H).dot(U)
    return U


def isclose(a, b, tol):
    return abs(a - b) <= tol + 1e-5 * abs(b)


def borderline(a, b, tol):
    return abs(abs(a - b) - (tol + 1e-5 * abs(b))) < 1e-9


def perturb_matrix(N, eta):
    """consumes numpy's global generator exactly as the specification says"""
    R = np.random.randn(N, N) * 0.1
    A = (R - R.T) / 2
    return expm(-eta / 2 * A)


def omega(P, O, v):
    """<v|[P,O]|v>"""
    return v.conj().dot((P.dot(O) - O.dot(P)).dot(v))


def combos(n, k):
    return list(itertools.combinations(range(n), k))


def words(k, alphabet='XYZ'):
    return [''.join(w) for w in itertools.product(alphabet, repeat=k)]


def su4_directions(n, add_su2):
    """(word, *qubits) in enumeration order"""
    out = []
    if add_su2:
        out += [(w, q) for w in words(1) for q in range(n)]
    out += [(w,) + c for w in words(2) for c in combos(n, 2)]
    return out
