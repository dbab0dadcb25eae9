"""C09: option validation."""
from falsify.common import *
from oranssi.optimizers import approximate_lie_optimizer, exact_lie_optimizer, parameter_shift_optimizer
from oranssi.opt_tools import *
from oranssi.opt_tools import LieLayer
from falsify.f06 import Stub

NAN = float('nan')
INF = float('inf')
VALS = {'s': 'x', 'i1': 1, 'i0': 0, 'im1': -1, 'f': 0.5, 'fm': -0.1, 'f1': 1.0, 'f0': 0.0, 'f11': 1.0000001, 'T': True, 'F': False, 'N': None,
        'nan': NAN, 'inf': INF, 'ff': 3.0, 'i5': 5, 'c': 1j, 'neg': -1e-12, 'two': 2.0}
BAD = {'nsteps': ['i0', 'im1', 'f', 'ff', 'f1'], 'eta': ['i1', 'i0', 'fm', 'f11', 'nan', 'two', 'neg', 'inf'],
       'tol': ['i1', 'i0', 'fm', 'nan', 'neg']}
GOOD = {'nsteps': ['i1', 'i5', 'T'], 'eta': ['f', 'f0', 'f1'], 'tol': ['f', 'f0', 'inf', 'ff']}
BOOLBAD = ['i1', 'i0', 's', 'N', 'f0']


def cases(tier, r):
    for o in ('exact', 'approx', 'shift'):
        for k in BAD:
            for v in BAD[k]:
                yield {'t': 'opt', 'o': o, 'k': k, 'v': v, 'ok': False}
            for v in GOOD[k]:
                yield {'t': 'opt', 'o': o, 'k': k, 'v': v, 'ok': True}
    for k in ['return_state', 'perturbation', 'return_unitary']:
        for v in BOOLBAD:
            yield {'t': 'opt', 'o': 'exact', 'k': k, 'v': v, 'ok': False}
    for v in ['i0', 'N', 'f0']:
        yield {'t': 'opt', 'o': 'exact', 'k': 'return_perturbations', 'v': v, 'ok': False}
    yield {'t': 'opt', 'o': 'exact', 'k': 'return_perturbations', 'v': 'T', 'ok': False}
    for k in ['return_state', 'return_omegas', 'return_unitary', 'return_gates', 'perturb', 'return_perturbations', 'return_zassenhaus']:
        for v in BOOLBAD:
            yield {'t': 'opt', 'o': 'approx', 'k': k, 'v': v, 'ok': False}
    for v in ['i1', 's', 'N']:
        yield {'t': 'opt', 'o': 'approx', 'k': 'escape_tol', 'v': v, 'ok': False}
    yield {'t': 'opt', 'o': 'approx', 'k': 'tol', 'v': 'N', 'ok': True}
    for v in BOOLBAD:
        yield {'t': 'opt', 'o': 'shift', 'k': 'return_state', 'v': v, 'ok': False}
        yield {'t': 'opt', 'o': 'shift', 'k': 'return_params', 'v': v, 'ok': False}
    for w in ['tuple', 'none', 'notlayer', 'mixed', 'single', 'mixedlast']:
        yield {'t': 'layers', 'w': w}
    for o in ('exact', 'approx'):
        for ret in ('none', 'float', 'expval', 'prob'):
            yield {'t': 'circuit', 'o': o, 'ret': ret}
    for ret in ('state', 'expval'):
        yield {'t': 'circuit', 'o': 'shift', 'ret': ret}
    L = ['Local1', 'Local2', 'Custom', 'Squared', 'Adapt', 'SU8', 'Stoch', 'Zass']
    for l in L:
        for v in BAD['eta']:
            yield {'t': 'layer', 'l': l, 'n': 4, 'k': 'eta', 'v': v, 'ok': False}
        for v in GOOD['eta']:
            yield {'t': 'layer', 'l': l, 'n': 4, 'k': 'eta', 'v': v, 'ok': True}
        for k in ('unitary_error_check', 'trotterize'):
            for v in BOOLBAD:
                yield {'t': 'layer', 'l': l, 'n': 4, 'k': k, 'v': v, 'ok': False}
            yield {'t': 'layer', 'l': l, 'n': 4, 'k': k, 'v': 'T', 'ok': True}
    for loc in (0, 3, -1, 4, None):
        yield {'t': 'locality', 'loc': loc, 'ok': False, 'n': 4, 'kw': {}}
    for n in (1, 3, 5):
        yield {'t': 'locality', 'loc': 2, 'ok': False, 'n': n, 'kw': {}}
        yield {'t': 'locality', 'loc': 1, 'ok': True, 'n': n, 'kw': {}}
    for s in (2, -1):
        yield {'t': 'locality', 'loc': 2, 'ok': False, 'n': 2, 'kw': {'stride': s}}
    for s in (0, 1):
        yield {'t': 'locality', 'loc': 2, 'ok': True, 'n': 2, 'kw': {'stride': s}}
    for loc, d, ok in [(1, ['X'], True), (1, ['XX'], False), (1, ['I'], False), (2, ['XX', 'ZY'], True), (2, ['X'], False), (2, ['XX', 'XI'], False),
                       (1, ['X', 'Q'], False), (1, ['Q', 'X'], False), (1, [], True)]:
        yield {'t': 'locality', 'loc': loc, 'ok': ok, 'n': 2, 'kw': {'directions': d}}
    for d, ok in [(['X'], True), (['XX', 'Z'], True), (['XXX'], False), (['I'], False), (['X', 'Q'], False), (['XI'], False), (['Q', 'X'], False), (None, True)]:
        yield {'t': 'custom', 'd': d, 'ok': ok}
    for n in (1, 2, 3, 4):
        yield {'t': 'su8', 'n': n, 'ok': n >= 3}


def circ(ret):
    def f(params, **kw):
        qml.RX(0.3, wires=0)
        if ret == 'state':
            return qml.state()
        if ret == 'float':
            return 0.1
        if ret == 'expval':
            return qml.expval(qml.PauliZ(0))
        if ret == 'prob':
            return qml.probs(wires=[0])
    return f


def expect(ok, f, why, exc=AssertionError):
    if ok:
        f()
    else:
        raises(exc, f, why)


def run(c):
    t = c['t']
    if t in ('opt', 'layers', 'circuit'):
        dev = device(1)
        obs = [qml.PauliZ(0)]
        log = []
        kw = {}
        if t == 'opt':
            kw = {c['k']: VALS[c['v']]}
        if c.get('k') != 'nsteps':
            kw['nsteps'] = 1
        ok = c.get('ok', False)
        why = '%s(%s)' % (c.get('o'), c.get('k', t) + '=' + repr(kw.get(c.get('k'), c.get('ret', c.get('w')))))
        if t == 'layers':
            lay = {'tuple': (Stub(dev, obs, 1, 'A', log),), 'none': None, 'notlayer': ['x'], 'mixed': [3, Stub(dev, obs, 1, 'A', log)],
                   'single': Stub(dev, obs, 1, 'A', log), 'mixedlast': [Stub(dev, obs, 1, 'A', log), 3]}[c['w']]
            return expect(False, lambda: approximate_lie_optimizer(circ('state'), [], obs, dev, lay, **kw), 'layers=' + c['w'])
        ret = c.get('ret', 'none' if c['o'] == 'shift' else 'state')
        if c['o'] == 'exact':
            f = lambda: exact_lie_optimizer(circ(ret), [], obs, dev, **kw)
        elif c['o'] == 'approx':
            f = lambda: approximate_lie_optimizer(circ(ret), [], obs, dev, [Stub(dev, obs, 1, 'A', log)], **kw)
        else:
            def pc(params, **k):
                qml.RX(params[0], wires=0)
                return circ(ret)(params)
            f = lambda: parameter_shift_optimizer(pc, [0.3], obs, dev, **kw)
        expect(ok, f, why, AttributeError if (t == 'circuit' and c['o'] == 'shift') else AssertionError)
        if not ok:
            need(not log, 'a layer ran before the options were rejected')
        return
    if t == 'layer':
        dev = device(c['n'])
        obs = [qml.PauliZ(0)]
        kw = {c['k']: VALS[c['v']]}
        mk = {'Local1': lambda: LocalLieAlgebraLayer(dev, obs, 1, **kw), 'Local2': lambda: LocalLieAlgebraLayer(dev, obs, 2, **kw),
              'Custom': lambda: CustomDirectionLieAlgebraLayer(dev, obs, ['X'], **kw), 'Squared': lambda: SquaredLieAlgebraLayer(dev, obs, **kw),
              'Adapt': lambda: AdaptVQELayer(dev, obs, **kw), 'SU8': lambda: SU8_AlgebraLayer(dev, obs, **kw),
              'Stoch': lambda: StochasticLieAlgebraLayer(dev, obs, **kw), 'Zass': lambda: ZassenhausLayer(dev, obs, **kw)}[c['l']]
        return expect(c['ok'], mk, '%s(%s=%r)' % (c['l'], c['k'], VALS[c['v']]))
    if t == 'locality':
        dev = device(c['n'])
        return expect(c['ok'], lambda: LocalLieAlgebraLayer(dev, [qml.PauliZ(0)], c['loc'], **c['kw']), 'locality %s %s n=%d' % (c['loc'], c['kw'], c['n']))
    if t == 'custom':
        return expect(c['ok'], lambda: CustomDirectionLieAlgebraLayer(device(2), [qml.PauliZ(0)], c['d']), 'directions %s' % c['d'])
    if t == 'su8':
        return expect(c['ok'], lambda: SU8_AlgebraLayer(device(c['n']), [qml.PauliZ(0)]), 'SU8 layer on %d qubits' % c['n'])
