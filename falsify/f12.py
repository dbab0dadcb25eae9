"""C12: enumeration of Lie-algebra directions."""
from falsify.common import *
from oranssi.opt_tools import AlgebraSU2, AlgebraSU4, AlgebraSU8, LocalLieAlgebraLayer


def cases(tier, r):
    for n in range(1, 5):
        yield {'t': 'su2', 'n': n}
        for a in (False, True, None):
            yield {'t': 'su4', 'n': n, 'a2': a}
        for a in (False, True):
            for b in (False, True):
                if n >= 3 or tier == 'thorough' or n >= 1:
                    yield {'t': 'su8', 'n': n, 'a2': a, 'a4': b}
    for n in (1, 2, 3):
        yield {'t': 'twice', 'n': n}


def expected(c):
    n = c['n']
    if c['t'] == 'su2':
        return [(w, q) for w in words(1) for q in range(n)]
    if c['t'] in ('su4', 'twice'):
        return su4_directions(n, c.get('a2') or c['t'] == 'twice')
    out = []
    if c['a2']:
        out += [(w, q) for w in words(1) for q in range(n)]
    if c['a4']:
        out += [(w,) + k for w in words(2) for k in combos(n, 2)]
    return out + [(w,) + k for w in words(3) for k in combos(n, 3)]


def run(c):
    n = c['n']
    if c['t'] == 'su2':
        A = AlgebraSU2(n)
    elif c['t'] == 'su4':
        A = AlgebraSU4(n) if c['a2'] is None else AlgebraSU4(n, add_su2=c['a2'])
    elif c['t'] == 'twice':
        A = AlgebraSU4(n, add_su2=True)
    else:
        A = AlgebraSU8(n, add_su2=c['a2'], add_su4=c['a4'])
    need(len(A.full_paulis) == 0, 'directions present before enumeration')
    A.get_all_directions_and_qubits()
    if c['t'] == 'twice':
        B = AlgebraSU4(n, add_su2=True)
        need(len(B.full_paulis) == 0, 'state shared between instances')
        A.get_all_directions_and_qubits()
    exp = expected(c)
    keys = [(k[0],) + tuple(int(x) for x in k[1:]) for k in A.full_paulis]
    need(len(keys) == len(exp), '%d directions, expected %d' % (len(keys), len(exp)))
    need(set(keys) == set(exp), 'missing %s extra %s' % (sorted(set(exp) - set(keys))[:3], sorted(set(keys) - set(exp))[:3]))
    need(keys == exp, 'order of directions')
    for k in exp:
        close(A.full_paulis[k], embed(word(k[0]), k[1:], n), 'operator of %s' % (k,))
    ws = ([] if c['t'] == 'su4' and not c['a2'] else words(1)) if c['t'] in ('su4', 'twice') else words(1)
    if c['t'] in ('su4', 'twice'):
        need(list(A.directions) == ws + words(2), 'directions %s' % A.directions)
    elif c['t'] == 'su2':
        need(list(A.directions) == words(1), 'directions')
    else:
        need(list(A.directions) == (words(1) if c['a2'] else []) + (words(2) if c['a4'] else []) + words(3), 'directions')
