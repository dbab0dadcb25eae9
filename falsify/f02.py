"""C02: Pauli bases."""
from falsify.common import *
from oranssi.utils import get_su_2_operators, get_su_4_operators, get_su_n_operators


OPTS = [(f, k, i, nm) for f, k in [(2, 1), (4, 2), ('n', 1), ('n', 2), ('n', 3)] for i in (False, True) for nm in (False, True)]


def call(fn, N, kw):
    if fn == 2:
        return get_su_2_operators(**kw)
    if fn == 4:
        return get_su_4_operators(**kw)
    return get_su_n_operators(N, **kw)


def cases(tier, r):
    for ident in (False, True, None):
        for names in (False, True, None):
            for fn, k in [(2, 1), (4, 2)] + [('n', k) for k in (range(1, 5) if ident else range(1, 6))]:
                yield {'t': 'basis', 'fn': fn, 'k': k, 'identity': ident, 'names': names}
    if tier == 'thorough':
        yield {'t': 'basis', 'fn': 'n', 'k': 5, 'identity': True, 'names': True}
        yield {'t': 'basis', 'fn': 'n', 'k': 6, 'identity': False, 'names': True}
    for i in range(8):
        yield {'t': 'history', 'order': [int(x) for x in r.randint(0, len(OPTS), 10)]}
    yield {'t': 'history', 'order': list(range(len(OPTS))) * 2}


def check(fn, k, ident, names):
    kw = {}
    if ident is not None:
        kw['identity'] = ident
    if names is not None:
        kw['return_names'] = names
    out = call(fn, 2 ** k, kw)
    ws = words(k, 'IXYZ' if ident else 'XYZ')
    if names:
        need(isinstance(out, tuple) and len(out) == 2, 'names requested: expected a pair')
        ops, nm = out
        need(list(nm) == ws, 'names %s, expected %s' % (list(nm)[:6], ws[:6]))
    else:
        ops = out
        need(isinstance(ops, list), 'expected a list of operators')
    need(len(ops) == len(ws), '%d operators, expected %d' % (len(ops), len(ws)))
    for o, w in zip(ops, ws):
        close(o, word(w), 'operator %s' % w)
    return out


def run(c):
    if c['t'] == 'basis':
        check(c['fn'], c['k'], c['identity'], c['names'])
        return
    for o in c['order']:
        out = check(*OPTS[o])
        ops, nm = out if isinstance(out, tuple) else (out, None)
        for M in ops:
            M *= 3.0          # a caller may scale or change what it received; later calls must not notice
        ops.reverse()
        ops.pop()
        if nm is not None:
            nm.pop(0)
            nm.append('?')
