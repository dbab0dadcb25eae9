"""C08: exactly the requested results are returned, in the documented order; requesting more never changes the costs.

Relational: the function is run with everything requested and with the given request."""
import itertools
from contracts.optspec import *

OPT = 'oranssi.optimizers.'
EXACT = ['return_state', 'return_perturbations', 'return_unitary']
APPROX = ['return_state', 'return_omegas', 'return_unitary', 'return_gates', 'return_perturbations', 'return_zassenhaus']
SHIFT = ['return_state', 'return_params']


def seq(I, v):
    if not isinstance(v, (PyList, SymSeq)):
        raise NotEqual(f'a list expected, got {v!r}')
    return I.lib.segs(v)


def elem_shape(I, v, shape, count, what):
    """list of `count` arrays of the given shape"""
    sg = seq(I, v)
    require(I, T.eq(V.seqlen(sg), count), f'{what}: number of entries')
    nm, i = T.newvar('i')
    i = to_int(i)

    def th():
        e = to_poly(I.lib.seg_get(sg, i))
        if e.shape is None or len(e.shape) != len(shape):
            raise NotEqual(f'{what}: entries of shape {e.shape}')
        for x, y in zip(e.shape, shape):
            require(I, T.eq(x, y), f'{what}: dimension of the entries')
    under(I, [T.ge0(i), T.lt(i, count)], lambda: I.explore(th))


def ints(I, v, what):
    for s in seq(I, v):
        e = s.v if isinstance(s, Seg1) else None
        if e is not None and not is_num(e):
            raise NotEqual(f'{what}: entry {e!r}')


def objs(I, v, kind, what):
    if isinstance(v, Arr):
        raise NotEqual(f'{what}: a plain array')
    for s in seq(I, v):
        e = s.v if isinstance(s, Seg1) else s.fn(T.newvar('i')[1])
        if not (isinstance(e, SymObj) and e.kind == kind):
            raise NotEqual(f'{what}: entry {e!r}')


def check_full(I, ctx, which, full, flags):
    """the items of the full request are recognisable by what they are"""
    n = ctx['n']
    N = T.pow2(n)
    if not isinstance(full, tuple) or len(full) != 1 + len(flags):
        raise NotEqual(f'{full!r} instead of a tuple of {1 + len(flags)}')
    cnt = V.seqlen(seq(I, full[0]))
    elem_shape(I, full[0], (), cnt, 'costs')
    for f, v in zip(flags, full[1:]):
        if f == 'return_state':
            elem_shape(I, v, (N,), cnt, 'states')
        elif f == 'return_perturbations':
            ints(I, v, 'perturbations')
        elif f == 'return_unitary' and which == 'exact':
            p = to_poly(v)
            if p.shape is None or len(p.shape) != 2:
                raise NotEqual('unitary')
        elif f == 'return_unitary':
            elem_shape(I, v, (N, N), cnt, 'unitaries')
        elif f == 'return_omegas':
            objs(I, v, 'omega', 'directions')
        elif f == 'return_gates':
            require(I, T.eq0(V.seqlen(seq(I, v))), 'gates')
        elif f == 'return_zassenhaus':
            objs(I, v, 'su', 'zassenhaus')
        elif f == 'return_params':
            elem_shape(I, v, (integer('P'),), cnt, 'parameters')


def prove(k):
    eta, tol, nsteps = real('eta'), real('tol'), integer('nsteps')

    def one(which, fn, flags, base, inputs, pr, req, omit):
        def run(I, outer, on):
            kw = dict(base)
            for f in flags:
                if f in on:
                    kw[f] = True
                elif not omit:
                    kw[f] = False
            ctx = inputs(I, kw)
            f = I.lookup_qual(OPT + fn)
            begin(I, outer)
            return ctx, fresh_rng(I, lambda: I.call_body(f, list(ctx['args']), dict(ctx['kw'])))

        def call(I, ctx):
            ctx['c'], ctx['full'] = run(I, ctx, flags)
            return run(I, ctx, req)[1]

        def post(I, ctx, kind, val, ob):
            full = ctx['full']
            if not req:
                ob('the bare cost list is returned', isinstance(val, PyList))
                ob('all items, each in its place', lambda: check_full(I, ctx['c'], which, full, flags))
                costs = val
            else:
                if not ob('a tuple of the costs and the requested items', isinstance(val, tuple) and len(val) == 1 + len(req)):
                    return
                costs = val[0]
                idx = [1 + i for i, f in enumerate(flags) if f in req]
                ob('the requested items in the documented order', lambda: [veq(I, v, full[i], f'item {flags[i - 1]}') for v, i in zip(val[1:], idx)] and None)
            ob('the costs do not depend on the request', lambda: veq(I, costs, full[0], 'costs'))
        tag = '+'.join(f[7:] for f in req) or 'nothing'
        opts = ','.join(f'{a}={"t" if isinstance(b, Poly) else b}' for a, b in base.items() if a in ('tol', 'perturb', 'perturbation'))
        k.verify(OPT + fn, f'request[{tag}|{opts}]', lambda I: {'args': []}, post, pr, [GFO], call=call)

    def subsets(fl, sizes=None):
        for r in range(len(fl) + 1):
            if sizes is None or r in sizes:
                yield from itertools.combinations(fl, r)
    for pert in (False, True):
        fl = EXACT if pert else [EXACT[0], EXACT[2]]     # perturbations can only be requested together with perturbation=True
        for i, req in enumerate(subsets(fl)):
            one('exact', 'exact_lie_optimizer', fl, {'nsteps': nsteps, 'eta': eta, 'tol': tol, 'perturbation': pert}, exact_inputs, pre(), req, i % 2 == 0)
    for i, req in enumerate(subsets(SHIFT)):
        one('shift', 'parameter_shift_optimizer', SHIFT, {'nsteps': nsteps, 'eta': eta, 'tol': tol}, shift_inputs, pre_shift(), req, i % 2 == 0)
    for t in (None, tol):
        for pert in (False, True):
            sizes = None if t is None and not pert or k.tier == 'thorough' else (0, 1, 6)
            for i, req in enumerate(subsets(APPROX, sizes)):
                one('approx', 'approximate_lie_optimizer', APPROX, {'nsteps': nsteps, 'eta': eta, 'tol': t, 'perturb': pert}, approx_inputs, pre_approx(), req, i % 2 == 0)
