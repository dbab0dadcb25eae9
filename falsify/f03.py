"""C03: Hamiltonian matrix and operator norm."""
from falsify.common import *
from oranssi.circuit_tools import get_hamiltonian_matrix
from oranssi.utils import operator_2_norm


def cases(tier, r):
    for i in range(60 if tier == 'quick' else 600):
        n = int(r.randint(1, 5))
        m = int(r.randint(0, 6))
        obs = rand_obs(r, n, m, maxk=3)
        if m >= 2 and i % 4 == 0:
            obs[-1] = obs[0]
        ck = ['none', 'list', 'array', 'default', 'int', 'zero'][i % 6]
        co = [float(x) for x in r.uniform(-2, 2, m)]
        if ck == 'int':
            co = [int(x) for x in r.randint(-3, 4, m)]
        if ck == 'zero' and m:
            co = [0.0] * m if i % 12 < 6 else [0.0] + co[1:]
        if ck == 'array' and i % 12 < 6:
            co = [abs(x) * 1e-3 for x in co]
        yield {'t': 'hamiltonian', 'n': n, 'obs': obs, 'ck': ck, 'co': co}
    for i in range(20):
        N = int(r.randint(1, 9))
        yield {'t': 'norm', 'N': N, 's': int(r.randint(10 ** 6)), 'kind': i % 4}


def run(c):
    if c['t'] == 'norm':
        r = np.random.RandomState(c['s'])
        A = r.randn(c['N'], c['N']) + 1j * r.randn(c['N'], c['N'])
        A = [A, A.real, A * 0, np.triu(A)][c['kind']]
        B = A.copy()
        v = operator_2_norm(A)
        close(v, np.sqrt(np.sum(np.abs(B) ** 2)), 'operator_2_norm')
        need(np.isrealobj(v), 'norm is not real')
        close(A, B, 'argument changed')
        return
    n = c['n']
    obs = [make_obs(o) for o in c['obs']]
    co = c['co']
    if c['ck'] == 'default':
        got, co = get_hamiltonian_matrix(n, obs), [1.0] * len(obs)
    elif c['ck'] == 'none':
        got, co = get_hamiltonian_matrix(n, obs, coeffs=None), [1.0] * len(obs)
    elif c['ck'] == 'array':
        got = get_hamiltonian_matrix(n, obs, np.array(co))
    else:
        got = get_hamiltonian_matrix(n, obs, list(co))
    H = np.zeros((2 ** n, 2 ** n), complex)
    for x, o in zip(co, c['obs']):
        H = H + x * obs_matrix(o, n)
    close(got, H, 'Hamiltonian matrix')
    close(got, np.asarray(got).conj().T, 'hermiticity')
