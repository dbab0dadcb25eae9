"""C21: Bloch-sphere conversions."""
from falsify.common import *
from oranssi.plot_utils import spherical_to_state, state_to_spherical

PI = float(np.pi)


def cases(tier, r):
    q = 1 if tier == 'quick' else 20
    for i in range(150 * q):
        yield {'t': 'round', 'phi': float(r.uniform(0, 2 * PI)), 'theta': float(r.uniform(0, PI))}
    for p in (0.0, PI / 2, PI, 3 * PI / 2, 1e-5, 2 * PI - 0.01, PI - 1e-9):
        for t in (0.0, PI, PI / 2, 1e-6, PI - 1e-6, 0.3, PI / 4):
            yield {'t': 'round', 'phi': p, 'theta': t}
    for k in range(5):
        for d in (0.2, 0.05, 0.02, 5e-3, 1.5e-3, 1e-4, 1e-7):
            for s in (-1, 1):
                p = k * PI / 2 + s * d
                if 0 <= p < 2 * PI:
                    for t in (PI / 2, PI / 2 + s * d, 0.4, PI - 0.02, 0.02):
                        yield {'t': 'round', 'phi': p, 'theta': t}
    for i in range(40 * q):
        yield {'t': 'wrap', 'phi': float(r.uniform(-10, 10)), 'theta': float(r.uniform(-10, 10))}
    for i in range(40 * q):
        yield {'t': 'mixed', 'v': [float(x) for x in r.uniform(-0.55, 0.55, 3)]}
    for i in range(20):
        yield {'t': 'random', 's': int(r.randint(10 ** 6))}
    for tr in (0.0, 0.5, 1.01, 2.0, -1.0):
        yield {'t': 'reject', 'tr': tr}


def rho_of(phi, theta):
    v = np.array([np.cos(theta / 2), (np.cos(phi) + 1j * np.sin(phi)) * np.sin(theta / 2)])
    return np.outer(v, v.conj())


def angles(rho):
    x, y, z = [np.sum(rho * PAULI[k].T).real for k in 'XYZ']
    return x, y, z


def run(c):
    if c['t'] == 'reject':
        return raises(AssertionError, lambda: state_to_spherical(np.diag([c['tr'], 0]).astype(complex)), 'trace %s' % c['tr'])
    if c['t'] in ('round', 'wrap'):
        rho = spherical_to_state(c['phi'], c['theta'])
        close(rho, rho_of(c['phi'], c['theta']), 'density matrix of (phi, theta)')
        close(np.trace(rho), 1.0, 'trace')
        close(rho.dot(rho), rho, 'purity')
    elif c['t'] == 'mixed':
        rho = (PAULI['I'] + sum(a * PAULI[k] for a, k in zip(c['v'], 'XYZ'))) / 2
    else:
        r = np.random.RandomState(c['s'])
        v = r.randn(2) + 1j * r.randn(2)
        v /= np.sqrt(np.sum(np.abs(v) ** 2))
        rho = np.outer(v, v.conj())
    r0 = rho.copy()
    phi, theta = state_to_spherical(rho)
    close(rho, r0, 'argument changed')
    x, y, z = angles(r0)
    need(0 <= float(phi) < 2 * PI and 0 <= float(theta) <= PI + 1e-12, 'angles outside [0,2pi)x[0,pi]: %s %s' % (phi, theta))
    need(abs(np.cos(float(theta)) - min(1, max(-1, z))) < 1e-9, 'cos(theta) = <Z>: theta %s, <Z> %s' % (theta, z))
    s = np.hypot(x, y)
    if s > 1e-12:
        d = np.angle(np.exp(1j * (float(phi) - np.arctan2(y, x))))
        need(abs(d) < 1e-9 or (float(phi) == 0.0 and abs(d) < 1.1e-3), 'azimuth %s, expected %s' % (phi, np.arctan2(y, x) % (2 * PI)))
    if c['t'] != 'mixed':
        close(spherical_to_state(phi, theta), r0, 'state -> angles -> state', 2e-3)
    if c['t'] == 'round' and 1e-4 < c['theta'] < PI - 1e-4 and c['phi'] < 2 * PI - 2e-3:
        close([float(phi), float(theta)], [c['phi'], c['theta']], 'angles -> state -> angles', 1e-6)
