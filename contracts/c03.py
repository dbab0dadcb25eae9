"""C03: Hamiltonian matrix and operator norm."""
from contracts.optspec import *


def prove(k):
    n, m, N = integer('n'), integer('m'), integer('N')
    co = lambda i: fam('co', i)

    def ham(kind):
        def build(I):
            a = [num(n), observables(m)]
            kw = {}
            if kind == 'None':
                kw['coeffs'] = None
            elif kind == 'list':
                a.append(PyList([SegMap(m, lambda i: num(real_pt(co(i))))]))
            elif kind == 'complex':
                a.append(PyList([SegMap(m, lambda i: Poly(fam('cc', i, typ='complex').terms, (), 'complex'))]))
            elif kind == 'array':
                a.append(Vec([SegMap(m, lambda i: num(real_pt(co(i))))]))
            return {'args': a, 'kw': kw}

        def post(I, ctx, kind_, val, ob):
            N = T.pow2(n)
            if kind in ('None', 'default'):
                H = Sum(m, lambda i: obs_full(i, n))
            elif kind == 'complex':
                H = Sum(m, lambda i: T.scale(fam('cc', i, typ='complex'), obs_full(i, n)))
            else:
                H = Sum(m, lambda i: T.scale(co(i), obs_full(i, n)))
            ob('sum of weighted embedded observables', lambda: veq(I, val, Arr(Poly(H.terms, (N, N))), 'H'))
        k.verify('oranssi.circuit_tools.get_hamiltonian_matrix', f'hamiltonian[coeffs={kind}]', build, post, [T.le(ONE, n), T.ge0(m)], [GFO])
    for kind in ('default', 'None', 'list', 'array', 'complex'):
        ham(kind)

    def build(I):
        return {'args': [Arr(matrix('R', N))]}

    def post(I, ctx, kind, val, ob):
        R = matrix('R', N)
        ob('norm', lambda: veq(I, val, T.sqrt(T.trace(T.matmul(T.dagger(R), R))), 'norm'))
        ob('argument unchanged', lambda: veq(I, ctx['args'][0], Arr(R), 'R'))
    k.verify('oranssi.utils.operator_2_norm', 'norm', build, post, [T.le(ONE, N)])
