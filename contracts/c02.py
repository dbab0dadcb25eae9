"""C02: Pauli bases: order, names, matrices; the result does not depend on earlier calls."""
from contracts.lib import *
from contracts.pauliset import *

ASSUMPTIONS = ['itertools.product enumerates in lexicographic order: digit(d, r, k, i) is letter i (from the left) of the k-th of the d^r words of length r',
               'numpy.kron is the Kronecker product; int(np.log2(2**n)) = n']


def prove(k):
    n = integer('n')
    for ident in (False, True):
        L = 'IXYZ' if ident else 'XYZ'
        for names in (False, True):
            for fn, args, r, pre in [('get_su_2_operators', [], 1, []), ('get_su_4_operators', [], 2, []), ('get_su_n_operators', [num(T.pow2(n))], n, [T.le(ONE, n)])] + \
                    [('get_su_n_operators', [2 ** c], c, []) for c in (1, 2, 3)]:
                lab = f'{fn.split("_")[2]}{args[0] if args and isinstance(args[0], int) else ""}'

                def build(I):
                    return {'args': list(args), 'kw': {'identity': ident, 'return_names': names}}

                def post(I, ctx, kind, val, ob):
                    ops = val
                    if names:
                        if not ob('a pair is returned', isinstance(val, tuple) and len(val) == 2):
                            return
                        ops = val[0]
                        ob('names are the words in lexicographic order', lambda: veq(I, val[1], words_spec(I, L, r), 'names'))
                    ob('operators are the Kronecker products of the letters', lambda: veq(I, ops, ops_spec(I, L, r), 'operators'))
                k.verify('oranssi.utils.' + fn, f'basis[{lab},identity={ident},names={names}]', build, post, pre)
                # history independence: a second call after the caller changed every list and array it got
                if names and not isinstance(r, Poly):
                    def call(I, ctx):
                        f = I.lookup_qual('oranssi.utils.' + fn)
                        a, b = I.call_body(f, list(args), {'identity': ident, 'return_names': True})
                        for s in list(a.segs):
                            I.set(s.v, 'val', T.scale(T.const(3), to_poly(s.v)))
                        I.lib.list_append(a, [None], {})
                        I.lib.list_append(b, ['?'], {})
                        return I.call_body(f, list(args), {'identity': ident, 'return_names': True})

                    def post2(I, ctx, kind, val, ob):
                        ob('second call: names', lambda: veq(I, val[1], words_spec(I, L, r), 'names'))
                        ob('second call: operators', lambda: veq(I, val[0], ops_spec(I, L, r), 'operators'))
                    k.verify('oranssi.utils.' + fn, f'repeatable[{lab},identity={ident}]', lambda I: {'args': []}, post2, [], call=call)
