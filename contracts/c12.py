"""C12: the Lie-algebra enumerations."""
from contracts.lib import *
from contracts.pauliset import *

GFO = 'oranssi.circuit_tools.get_full_operator'
ASSUMPTIONS = ['itertools.combinations(range(n), r) enumerates the increasing r-tuples lexicographically: comb_t(n, k) is entry t of the k-th; injective and onto',
               'get_full_operator satisfies its contract (property C01)']


def qubit_sets(n, r):
    """(count, k -> k-th increasing r-tuple)"""
    if r == 1:
        return n, lambda k: (num(k),)
    return to_int(T.app(f'ncomb{r}', n)), lambda k: tuple(num(to_int(T.app(f'comb{r}_{t}', n, k))) for t in range(r))


def entries(n, words):
    out = []
    for d in words:
        cnt, q = qubit_sets(n, len(d))
        M = word_matrix(d)
        out.append(SegMap(cnt, lambda k, d=d, q=q, M=M: ((d,) + q(k), Arr(libqml.embed(M, tuple(to_int(to_poly(x)) for x in q(k)), n)))))
    return out


def items(I, d):
    if not isinstance(d, PyDict):
        raise NotEqual(f'{d!r} is not a dictionary')
    return list(I.lib.dict_segs(d, 'items'))


def words(lengths):
    import itertools
    return [''.join(w) for r in lengths for w in itertools.product('XYZ', repeat=r)]


def prove(k):
    n = integer('n')
    cfgs = [('AlgebraSU2', {}, [1]), ('AlgebraSU4', {}, [2]), ('AlgebraSU4', {'add_su2': True}, [1, 2]), ('AlgebraSU4', {'add_su2': False}, [2])]
    for a in (False, True):
        for b in (False, True):
            cfgs.append(('AlgebraSU8', {'add_su2': a, 'add_su4': b}, [1] * a + [2] * b + [3]))
    for cls, kw, lens in cfgs:
        for lab, pr in [('n=1', [T.eq(n, ONE)]), ('n>=2', [T.le(T.const(2), n)])]:
            for times in (1, 2):
                def call(I, ctx):
                    c = I.lookup_qual('oranssi.opt_tools.' + cls)
                    o = I.call(c, [num(n)], dict(kw))
                    for _ in range(times):
                        I.call(I.attr(o, 'get_all_directions_and_qubits'), [], {})
                    return o

                def post(I, ctx, kind, val, ob):
                    ob('one entry per word and qubit set, in order, with the embedded word' if times == 1 else 'enumerating again changes nothing',
                       lambda: seq_eq(I, items(I, I.attr(val, 'full_paulis')), entries(n, words(lens)), 'entries', 0))
                o = ','.join(f'{x}={y}' for x, y in kw.items())
                k.verify(f'oranssi.opt_tools.{cls}.get_all_directions_and_qubits', f'enumeration[{o}|{lab}|x{times}]', lambda I: {'args': []}, post, pr, [GFO], call=call)
