"""C13: gradient read-out over all Pauli words."""
from contracts.layers import *

ASSUMPTIONS = ['itertools.product enumerates distinct words in lexicographic order', 'get_su_n_operators satisfies its contract (property C02)', 'get_full_operator satisfies its contract (property C01)']
DIR = 'oranssi.circuit_tools.get_all_su_n_directions'


def read_out(I, U, n, m):
    """word -> sum_O Im<phi|[P,O]|phi> / 2^n"""
    phi = state_of(U, n)
    names = words_spec(I, 'IXYZ', n).segs[0]

    def value(k):
        P = pword('IXYZ', n, k)
        return T.div(Sum(m, lambda i: T.imag_part(comm_value(phi, P, obs_full(i, n)))), T.pow2(n))
    return [SegMap(names.cnt, lambda k: (names.fn(k), num(value(k))))]


def items(I, d):
    if not isinstance(d, PyDict):
        raise NotEqual(f'{d!r} is not a dictionary')
    return list(I.lib.dict_segs(d, 'items'))


def prove(k):
    n, m = integer('n'), integer('m')
    U = matrix('U', T.pow2(n), unit=True)
    base = [T.le(ONE, n), T.ge0(m)]

    def post(I, ctx, kind, val, ob):
        ob('every word with its gradient, in order', lambda: seq_eq(I, items(I, val), read_out(I, U, n, m), 'directions', 0))
    k.verify(DIR, 'read-out', lambda I: {'args': [Arr(U), observables(m), libqml.device(n)]}, post, base, [GFO, SUN])
    # every layer reads out for the observables it was built from
    h = integer('h')
    for cls, args, extra in [('LieLayer', [num(n)], []), ('LocalLieAlgebraLayer', [1], []), ('LocalLieAlgebraLayer', [2], [T.eq(n, T.scale(T.const(2), h)), T.le(ONE, h)]),
                             ('CustomDirectionLieAlgebraLayer', [None], []), ('SquaredLieAlgebraLayer', [], []), ('AdaptVQELayer', [], []),
                             ('SU8_AlgebraLayer', [], [T.le(T.const(3), n)])]:
        def call(I, ctx, args=args, cls=cls):
            dev, obs, u = libqml.device(n), observables(m), Arr(U)
            begin(I, ctx)
            o = I.call(I.lookup_qual(LAY + cls), [dev, obs] + list(args), {})
            return again(I, ctx, lambda x: I.call(I.attr(o, 'get_lie_algebra_directions'), [u], {}), None)
        k.verify(LAY + 'LieLayer.get_lie_algebra_directions', f'read-out of {cls}{args if cls[:2] == "Lo" else ""}', lambda I: {'args': []}, post, base + extra, [GFO, SUN], call=call)
