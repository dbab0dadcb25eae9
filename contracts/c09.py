"""C09: options outside their domain are rejected, options inside it accepted."""
from contracts.layers import *
from contracts.optspec import *

ASSUMPTIONS = ['numbers are exact: NaN, infinities and signed zeros are covered by the concrete cases only', 'get_full_operator satisfies its contract (property C01)']
OPT = 'oranssi.optimizers.'
TYPES = {'a string': 'x', 'None': None, 'an int': 1, 'zero': 0, 'a float': lambda: num(T.const(0.5))}


def typ(name):
    v = TYPES[name]
    return v() if callable(v) else v


def rejects(exc='AssertionError'):
    return lambda I, ctx, kind, val, ob: ob(f'rejected with {exc}', kind == 'raise' and val.exc == exc, f'{kind} {getattr(val, "exc", "")}')


def accepts(I, ctx, kind, val, ob):
    ob('accepted', kind == 'return', f'{kind} {val}')


def exactly(dom):
    """accepted iff `dom`"""
    def post(I, ctx, kind, val, ob):
        if kind == 'raise':
            ob('rejected with AssertionError', val.exc == 'AssertionError', val.exc)
            ob('rejected only outside the domain', T.bnot(dom))
        else:
            ob('accepted only inside the domain', dom)
    return post


BOTH = ('raise', 'return')


def prove(k):
    n, m, L, K_, P = integer('n'), integer('m'), integer('L'), integer('K'), integer('P')
    x, s = real('x'), integer('s')
    unit = T.band(T.ge0(x), T.le(x, ONE))
    sizes = [T.le(ONE, n), T.ge0(m), T.ge0(K_), T.le(ONE, L), T.ge0(P)]
    good = {'nsteps': 1, 'eta': num(T.const(0.5)), 'tol': num(T.const(0.25))}
    opts = {'exact_lie_optimizer': (exact_inputs, ['return_state', 'perturbation', 'return_perturbations', 'return_unitary']),
            'approximate_lie_optimizer': (approx_inputs, ['return_state', 'return_omegas', 'return_unitary', 'return_gates', 'perturb', 'return_perturbations', 'return_zassenhaus']),
            'parameter_shift_optimizer': (shift_inputs, ['return_state', 'return_params'])}
    for name, (inputs, flags) in opts.items():
        def ver(lab, kw, post, extra=(), edit=None):
            def build(I):
                c = inputs(I, dict(kw))
                if edit:
                    edit(I, c)
                return c
            k.verify(OPT + name, lab, build, post, sizes + list(extra), [GFO], expect=BOTH)
        # every real eta, every real tol, every int nsteps
        ver('eta: every real number', {**good, 'eta': num(x)}, exactly(unit))
        ver('tol: every real number', {**good, 'tol': num(x)}, exactly(T.ge0(x)))
        ver('nsteps: every int', {**good, 'nsteps': num(s)}, exactly(T.le(ONE, s)))
        for t in ('an int', 'zero'):
            ver(f'eta is {t}', {**good, 'eta': typ(t)}, rejects())
            ver(f'tol is {t}', {**good, 'tol': typ(t)}, rejects())
        ver('nsteps: every non-int number', {**good, 'nsteps': num(x)}, rejects())
        ver('eta: every int', {**good, 'eta': num(s)}, rejects())
        ver('tol: every int', {**good, 'tol': num(s)}, rejects())
        for f in flags:
            for t in TYPES:
                ver(f'{f} is {t}', {**good, f: typ(t)}, rejects())
            kw = {**good, f: True}
            if f == 'return_perturbations' and name == 'exact_lie_optimizer':
                kw['perturbation'] = True
            ver(f'{f} is True', kw, accepts)
            ver(f'{f} is False', {**good, f: False}, accepts)
        ver('defaults', {}, accepts)
        if name != 'parameter_shift_optimizer':
            def returning(v):
                def edit(I, c):
                    c['args'][0] = SymObj('circuit', {}, call=lambda a, k: v, key=('circuit', 'ret'))
                return edit
            ver('circuit returning nothing', good, rejects(), edit=returning(None))
            ver('circuit returning a number', good, rejects(), edit=returning(num(x)))
            for kind in ('Expectation', 'Probability', 'Sample', 'Variance'):
                ret = SymObj('measurement', {'return_type': SymObj('rt', {'name': kind}, key=('rt', kind))}, key=('meas', kind))
                ver(f'circuit returning {kind}', good, rejects(), edit=returning(ret))
        else:
            for kind in ('State', 'Expectation', 'Probability'):
                ret = SymObj('measurement', {'return_type': SymObj('rt', {'name': kind}, key=('rt', kind))}, key=('meas', kind))

                def edit(I, c):
                    c['args'][0] = SymObj('circuit', {}, call=lambda a, k: ret, key=('circuit', 'ret'))
                ver(f'circuit returning {kind}', good, rejects('AttributeError'), edit=edit)
        if name == 'exact_lie_optimizer':
            ver('tol is None', {**good, 'tol': None}, lambda I, c, kind, val, ob: ob('rejected', kind == 'raise'))
            ver('return_perturbations without perturbation', {**good, 'return_perturbations': True}, rejects())
        if name == 'approximate_lie_optimizer':
            ver('tol is None', {**good, 'tol': None}, accepts)
            for t in ('a string', 'None', 'an int', 'zero'):
                ver(f'escape_tol is {t}', {**good, 'escape_tol': typ(t)}, rejects())

            def lay(f):
                def edit(I, c):
                    c['args'][4] = f(I, c['args'][4])
                return edit
            ver('layers is a tuple', good, rejects(), edit=lay(lambda I, l: (I.lib.index(l.segs, 0),)))
            ver('layers is None', good, rejects(), edit=lay(lambda I, l: None))
            ver('layers is a layer', good, rejects(), edit=lay(lambda I, l: I.lib.index(l.segs, 0)))
            ver('a list that ends in something else', good, rejects(), edit=lay(lambda I, l: PyList(list(l.segs) + [Seg1('x')])))
            ver('a list that starts with something else', good, rejects(), edit=lay(lambda I, l: PyList([Seg1(3)] + list(l.segs))))
    # ---------------------------------------------------------------- layers
    h = integer('h')
    even = [T.eq(n, T.scale(T.const(2), h)), T.le(ONE, h)]
    odd = [T.eq(n, T.add(T.scale(T.const(2), h), ONE)), T.ge0(h)]
    lays = [('LocalLieAlgebraLayer', [1], []), ('LocalLieAlgebraLayer', [2], even), ('CustomDirectionLieAlgebraLayer', [None], []), ('SquaredLieAlgebraLayer', [], []),
            ('AdaptVQELayer', [], []), ('SU8_AlgebraLayer', [], [T.le(T.const(3), n)]), ('StochasticLieAlgebraLayer', [], [])]

    def build_layer(cls, args, kw, lab, post, extra):
        def call(I, ctx):
            return I.call(I.lookup_qual(LAY + cls), [libqml.device(n), observables(m)] + list(args), dict(kw))
        k.verify(LAY + cls + '.__init__', lab, lambda I: {'args': []}, post, [T.le(ONE, n), T.ge0(m)] + list(extra), [GFO], expect=BOTH, call=call)
    for cls, args, extra in lays:
        a = ','.join(map(str, args))
        build_layer(cls, args, {'eta': num(x)}, f'eta: every real number[{a}]', exactly(unit), extra)
        build_layer(cls, args, {'eta': num(s)}, f'eta: every int[{a}]', rejects(), extra)
        build_layer(cls, args, {}, f'defaults[{a}]', accepts, extra)
        for f in ('unitary_error_check', 'trotterize'):
            for t in TYPES:
                build_layer(cls, args, {f: typ(t)}, f'{f} is {t}[{a}]', rejects(), extra)
            for v in (True, False):
                build_layer(cls, args, {f: v}, f'{f} is {v}[{a}]', accepts, extra)
    loc = 'LocalLieAlgebraLayer'
    build_layer(loc, [num(s)], {}, 'locality: every int', exactly(T.bor(T.eq(s, ONE), T.eq(s, T.const(2)))), even)
    for t in ('a string', 'None'):
        build_layer(loc, [typ(t)], {}, f'locality is {t}', rejects(), even)
    build_layer(loc, [2], {}, 'locality 2 on an odd number of qubits', rejects(), odd)
    build_layer(loc, [1], {}, 'locality 1 on an odd number of qubits', accepts, odd)
    build_layer(loc, [2], {'stride': num(s)}, 'stride: every int', exactly(T.bor(T.eq(s, T.ZERO), T.eq(s, ONE))), even)
    build_layer('SU8_AlgebraLayer', [], {}, 'number of qubits', exactly(T.le(T.const(3), n)), [])
    lst = lambda ds: PyList([Seg1(d) for d in ds])
    for r, alphabet in ((1, words([1])), (2, words([2]))):
        for bad in ('', 'I', 'Q', 'XI', 'XXX', 'x', 'X' if r == 2 else 'XX'):
            for ds in ([bad], [alphabet[0], bad], [bad, alphabet[-1]], alphabet + [bad]):
                build_layer(loc, [r], {'directions': lst(ds)}, f'directions {ds}[{r}]', rejects(), even)
        for ds in [[w] for w in alphabet] + [alphabet[::-1], alphabet[::2], []]:
            build_layer(loc, [r], {'directions': lst(ds)}, f'directions {ds}[{r}]', accepts, even)
    both = words([1, 2])
    for bad in ('', 'I', 'Q', 'XI', 'XXX', 'IX'):
        for ds in ([bad], ['X', bad], [bad, 'YZ'], both + [bad]):
            build_layer('CustomDirectionLieAlgebraLayer', [lst(ds)], {}, f'directions {ds}', rejects(), [])
    for ds in [[w] for w in both] + [both[::-1]]:
        build_layer('CustomDirectionLieAlgebraLayer', [lst(ds)], {}, f'directions {ds}', accepts, [])
