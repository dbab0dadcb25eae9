"""C10: Local / Custom layers apply the projected-gradient step."""
from falsify.common import *
from oranssi.opt_tools import LocalLieAlgebraLayer, CustomDirectionLieAlgebraLayer


def local_groups(n, loc, dirs):
    ws = [w for w in words(loc) if dirs is None or w in dirs]
    sites = [(q,) for q in range(n)] if loc == 1 else combos(n, 2)
    return [[embed(word(w), s, n) for w in ws] for s in sites]


def custom_group(n, dirs):
    ks = [k for k in su4_directions(n, True) if dirs is None or k[0] in dirs]
    return [[embed(word(k[0]), k[1:], n) for k in ks]]


def step(U, groups, obs, eta, n, trotter):
    """gradients are read at the state on entry; one exponential per site (per word when trotterised)"""
    v = state(U)
    for O in obs:
        for g in groups:
            if trotter:
                for P in g:
                    U = expm(-eta / 2 ** n * omega(P, O, v) * P).dot(U)
            elif g:
                G = sum(omega(P, O, v) * P for P in g)
                U = expm(-eta / 2 ** n * G).dot(U)
    return U


def cases(tier, r):
    q = 1 if tier == 'quick' else 6
    i = 0
    for kind in ('local1', 'local2', 'custom'):
        for trot in (False, True):
            for rep in range(7 * q):
                i += 1
                n = {'local1': [1, 2, 3], 'local2': [2, 4, 2], 'custom': [1, 2, 3]}[kind][rep % 3]
                if kind == 'local2' and n == 4 and rep > 2 and tier == 'quick':
                    n = 2
                loc = 2 if kind == 'local2' else 1
                ws = words(1) + words(2) if kind == 'custom' else words(loc)
                d = None
                if rep % 7 not in (0, 3):
                    k = int(r.randint(1, len(ws) + 1))
                    d = [ws[j] for j in r.permutation(len(ws))[:k]]
                    if kind == 'custom' and n == 1:
                        d = [x for x in d if len(x) == 1] or ['Y']
                yield {'t': kind, 'n': n, 'trot': trot, 'dirs': d, 'obs': rand_obs(r, n, int(r.randint(1, 4))), 's': int(r.randint(10 ** 6)),
                       'eta': [0.1, 1.0, 0.43, 0.0][rep % 4], 'calls': 1 + rep % 3, 'uec': rep % 2 == 1, 'default': rep % 7 == 6,
                       'set_eta': 0.77 if rep % 5 == 4 else None}


def run(c):
    n = c['n']
    dev = device(n)
    obs = [make_obs(o) for o in c['obs']]
    full = [obs_matrix(o, n) for o in c['obs']]
    eta = c['eta']
    kw = {'eta': eta, 'trotterize': c['trot'], 'unitary_error_check': c['uec']}
    if c['default']:
        kw = {'trotterize': c['trot']}
        eta = 0.1
    if c['t'] == 'custom':
        layer = CustomDirectionLieAlgebraLayer(dev, obs, c['dirs'], **kw)
        groups = custom_group(n, c['dirs'])
    else:
        loc = int(c['t'][-1])
        if c['dirs'] is not None:
            kw['directions'] = c['dirs']
        layer = LocalLieAlgebraLayer(dev, obs, loc, **kw)
        groups = local_groups(n, loc, c['dirs'])
    if c['set_eta'] is not None:
        eta = c['set_eta']
        layer.set_eta(eta)
    U = rand_unitary(np.random.RandomState(c['s']), 2 ** n)
    for k in range(c['calls']):
        U0 = U.copy()
        got = layer(U, nsteps=3, tol=None)
        exp = step(U0, groups, full, eta, n, c['trot'])
        close(got, exp, 'layer step (call %d)' % k)
        close(U, U0, 'input unitary changed')
        close(np.asarray(got).dot(np.asarray(got).conj().T), np.eye(2 ** n), 'unitarity')
        U = np.array(got) if k % 2 == 0 else rand_unitary(np.random.RandomState(c['s'] + k), 2 ** n)
