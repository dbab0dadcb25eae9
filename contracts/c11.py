"""C11: unitarity check, projection, and the projected steps."""
from contracts.layers import *

ASSUMPTIONS = ['numpy.linalg.svd(W) returns (P, S, Q) with W = P diag(S) Q, P and Q unitary; P Q is then the closest unitary (Eckart-Young/Fan-Hoffman)',
               'get_full_operator satisfies its contract (property C01)']
CHECK = LAY + 'LieLayer._is_unitary'
PROJ = LAY + 'LieLayer._project_onto_unitary'


@contract(CHECK, 'C11')
def is_unitary(I, env):
    """ensures: result == isU(U)  (max entry of |U U^dagger - 1| <= 1e-8)"""
    return T.pred('isU', to_poly(env['U']))


@contract(PROJ, 'C11')
def project(I, env):
    """ensures: result == proj(U)"""
    U = to_poly(env['U'])
    return Arr(proj(U))


def proj(U):
    return T.mk('proj', U, shape=U.shape, unit=True).poly()


def prove(k):
    n, m, eta = integer('n'), integer('m'), real('eta')
    N = T.pow2(n)
    W = matrix('W', N)
    base = [T.le(ONE, n), T.ge0(m), T.ge0(eta), T.le(eta, ONE)]

    def method(name):
        def call(I, ctx):
            dev, obs, w = libqml.device(n), observables(m), Arr(W)
            begin(I, ctx)
            o = I.call(I.lookup_qual(LAY + 'LieLayer'), [dev, obs, num(n)], {})
            return I.call(I.attr(o, name), [w], {})
        return call
    err = T.mk('amax', T.absval(T.sub(T.matmul(W, T.dagger(W)), T.eye(N))), typ='real').poly()
    ok = T.ge0(T.sub(T.const(1e-8), err))

    def post(I, ctx, kind, val, ob):
        if not ob('a truth value', isinstance(val, (bool, B)) or is_num(val)):
            return
        ob('true exactly when every entry of |U U^dagger - 1| is at most 1e-8', lambda: veq(I, to_poly(val), T.ite(ok, ONE, T.ZERO), 'verdict'))
    k.verify(CHECK, 'unitarity check', lambda I: {'args': []}, post, base, [GFO], call=method('_is_unitary'))
    P, Q = T.mk('svdP', W, shape=W.shape, unit=True).poly(), T.mk('svdQ', W, shape=W.shape, unit=True).poly()
    k.verify(PROJ, 'projection', lambda I: {'args': []},
             lambda I, c, kind, val, ob: ob('P Q of the singular value decomposition', lambda: veq(I, val, Arr(T.matmul(P, Q)), 'projection')), base, [GFO], call=method('_project_onto_unitary'))

    def corrected(V):
        return T.ite(T.pred('isU', V), V, proj(V))
    U = matrix('U', N, unit=True)
    h = integer('h')
    for check in (True, False):
        fix = corrected if check else (lambda V: V)
        for trot in (False, True):
            for r, sels in [(1, [None, ('Y',), ('X', 'Z')]), (2, [('YZ',), ('XX', 'XY')] + ([None] if k.tier == 'thorough' else []))]:
                for sel in sels:
                    kw = {'eta': eta, 'trotterize': trot, 'unitary_error_check': check}
                    if sel is not None:
                        kw['directions'] = PyList([Seg1(d) for d in sel])
                    use = [w for w in words([r]) if sel is None or w in sel]
                    k.verify(LAY + 'LocalLieAlgebraLayer.__call__', f'corrected step[locality={r},directions={sel and "+".join(sel)},trotterize={trot},check={check}]', lambda I: {'args': []},
                             lambda I, c, kind, val, ob: ob('each step is kept if the check accepts it and replaced by its projection otherwise',
                                                            lambda: veq(I, val, local_step(I, U, n, m, eta, r, use, trot, fix), 'unitary')),
                             base + ([T.eq(n, T.scale(T.const(2), h)), T.le(ONE, h)] if r == 2 else []), [GFO, CHECK, PROJ], call=run_layer('LocalLieAlgebraLayer', [r], kw, n, m, U))
            for sel in [('Y',), ('X', 'ZY'), ('XX', 'YZ')]:
                kw = {'eta': eta, 'trotterize': trot, 'unitary_error_check': check}
                k.verify(LAY + 'CustomDirectionLieAlgebraLayer.__call__', f'corrected step[directions={"+".join(sel)},trotterize={trot},check={check}]', lambda I: {'args': []},
                         lambda I, c, kind, val, ob: ob('each step is kept if the check accepts it and replaced by its projection otherwise',
                                                        lambda: veq(I, val, custom_step(I, U, n, m, eta, sel, trot, fix), 'unitary')),
                         base + [T.le(T.const(2), n)], [GFO, CHECK, PROJ],
                         call=run_layer('CustomDirectionLieAlgebraLayer', [PyList([Seg1(d) for d in sel])], kw, n, m, U))
