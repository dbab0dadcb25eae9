"""C14: line-search layers rotate along the largest gradient."""
from falsify.common import *
from oranssi.opt_tools import SquaredLieAlgebraLayer, SU8_AlgebraLayer, ZassenhausLayer
from oranssi.optimizers import parameter_shift_optimizer
from falsify.f15 import *


def cases(tier, r):
    q = 1 if tier == 'quick' else 6
    for i in range(16 * q):
        n = [1, 2, 3, 2][i % 4]
        yield {'t': 'squared', 'n': n, 'obs': rand_obs(r, n, int(r.randint(1, 4)), maxk=3), 's': int(r.randint(10 ** 6)), 'calls': 3}
    for i in range(8 * q):
        n = [3, 3, 3, 4][i % 4]
        yield {'t': 'su8', 'n': n, 'obs': rand_obs(r, n, int(r.randint(1, 4)), maxk=3), 's': int(r.randint(10 ** 6)), 'calls': 2, 'a2': i % 3 != 2, 'a4': i % 3 != 1}
    for i in range(5 * q):
        n = [2, 3, 4, 2, 3][i % 5]
        yield {'t': 'commute', 'n': n, 's': int(r.randint(10 ** 6)), 'obs': [['P', 'Z', [j]] for j in range(n)] if i % 2 == 0 else rand_obs(r, n, 2, herm=False)}
    for i in range(9 * q):      # several directions, of one and of two letters, and several edges tie
        n = [2, 3, 2, 4][i % 4]
        zs, zz = [['P', 'Z', [j]] for j in range(n)], [['P', 'ZZ', [j, j + 1]] for j in range(n - 1)]
        yield {'t': 'commute', 'n': n, 's': int(r.randint(10 ** 6)), 'tie': int(i % 4 == 3), 'first': int(i % 4 == 2), 'obs': [zs + zz, zs[:1], zz, zs][i % 4]}


def roto(P, U, full):
    f = lambda t: cost(expm(-1j * t / 2 * P).dot(U), full)
    h0, hp, hm = f(0), f(np.pi / 2), f(-np.pi / 2)
    # f(t) = a + b cos t + c sin t
    a, cc = (hp + hm) / 2, (hp - hm) / 2
    b = h0 - a
    t = np.arctan2(-cc, -b)
    return expm(-1j * t / 2 * P).dot(U)


def grads(U, full, keys, n):
    v = state(U)
    return {k: abs(sum(omega(embed(word(k[0]), k[1:], n), O, v).imag for O in full)) for k in keys}


def run(c):
    n = c['n']
    dev = device(n)
    obs = [make_obs(o) for o in c['obs']]
    full = [obs_matrix(o, n) for o in c['obs']]
    U = rand_unitary(np.random.RandomState(c['s']), 2 ** n)
    if 'tie' in c:
        th = np.random.RandomState(c['s']).uniform(0.3, 1.2)
        one = expm(-1j * np.pi / 8 * c['tie'] * word('Z')).dot(expm(-1j * th / 2 * word('Y')))
        U = np.eye(1)
        for _ in range(n):
            U = np.kron(U, one)
    if c['t'] == 'commute':
        return commute(c, n, dev, obs, full, U)
    if c['t'] == 'squared':
        layer, keys = SquaredLieAlgebraLayer(dev, obs), su4_directions(n, True)
    else:
        layer = SU8_AlgebraLayer(dev, obs, add_su2=c['a2'], add_su4=c['a4'])
        keys = ([(w, q) for w in words(1) for q in range(n)] if c['a2'] else []) + ([(w,) + k for w in words(2) for k in combos(n, 2)] if c['a4'] else []) + \
            [(w,) + k for w in words(3) for k in combos(n, 3)]
    prev = None
    for call in range(c['calls']):
        om = grads(U, full, keys, n)
        if c['t'] == 'squared' and prev is not None:
            del om[prev]
        order = sorted(om.values())
        k = max(om, key=om.get)
        U0 = U.copy()
        got = np.asarray(layer(U))
        close(U, U0, 'input unitary changed')
        close(got.dot(got.conj().T), np.eye(2 ** n), 'unitarity')
        need(cost(got, full) <= cost(U0, full) + 1e-7, 'cost increased')
        if len(order) > 1 and order[-1] - order[-2] < 1e-6:      # tie: any of the maximal ones
            best = [x for x in om if om[x] > order[-1] - 1e-6]
        else:
            best = [k]
        ok = None
        for b in best:
            P = embed(word(b[0]), b[1:], n)
            R = roto(P, U0, full)       # the angle is fixed modulo 2 pi, the unitary up to a sign
            if min(np.max(np.abs(got - R)), np.max(np.abs(got + R))) < 1e-6:
                ok = b
        if ok is None and order[-1] < 1e-6:
            return
        need(ok is not None, 'call %d: result is not the optimal rotation along the largest gradient %s' % (call, best[:3]))
        cur = tuple(layer.current_pauli[:1]) + tuple(int(x) for x in layer.current_pauli[1:])
        need(cur in best, 'recorded direction %s, expected %s' % (cur, best))
        prev = cur
        U = got


def commute(c, n, dev, obs, full, U):
    layer = SquaredLieAlgebraLayer(dev, obs)
    om = grads(U, full, su4_directions(n, True), n)
    if c.get('first'):      # an ordinary call comes first; what it used is left out
        U = np.asarray(layer(U))
        om = grads(U, full, su4_directions(n, True), n)
        cur = tuple(layer.current_pauli[:1]) + tuple(int(x) for x in layer.current_pauli[1:])
        del om[cur]
    if np.max(list(om.values())) < 1e-3:
        return
    got, gates = layer(U, commute=True, optimizer=parameter_shift_optimizer)
    best = max(om.values())
    need(len(gates) >= 1, 'no gate applied')
    V, used = U, set()
    ws = set(g[0][0] for g in gates)
    need(len(ws) == 1, 'gates along different words %s' % ws)
    gap = [abs(v - (best - 1e-3 - 1e-5 * best)) for v in om.values()]
    if min(gap) > 1e-7:      # none of them on the edge of the tolerance
        near = [k for k in om if om[k] > best - 1e-3 - 1e-5 * best]
        need(ws == {near[0][0]}, 'gates along %s, the first direction of largest gradient is %s' % (ws, near[0][0]))
    for (key, p) in gates:
        key = (key[0],) + tuple(int(x) for x in key[1:])
        need(om[key] >= best - 1.1e-3 - 1e-5 * best, 'gate along %s with gradient %.5f, largest is %.5f' % (key, om[key], best))
        need(not used & set(key[1:]), 'overlapping gates')
        used |= set(key[1:])
        V = expm(-1j * float(p) / 2 * embed(word(key[0]), key[1:], n)).dot(V)
    close(got, V, 'returned unitary is the product of the returned gates')
    f = lambda ps: cost(_prod(U, gates, ps, n), full)
    need(cost(np.asarray(got), full) <= f([0.1] * len(gates)) + 1e-6, 'optimised cost above the starting cost')


def _prod(U, gates, ps, n):
    V = U
    for (key, _), p in zip(gates, ps):
        V = expm(-1j * p / 2 * embed(word(key[0]), [int(x) for x in key[1:]], n)).dot(V)
    return V
