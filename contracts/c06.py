"""C06: approximate_lie_optimizer applies the layers cyclically and records every step."""
from contracts.optspec import *


def prove(k):
    eta, tol, nsteps = real('eta'), real('tol'), integer('nsteps')
    for t in (None, tol):
        for pert in (False, True):
            def build(I):
                kw = {'nsteps': nsteps, 'eta': eta, 'tol': t, 'return_state': True, 'return_unitary': True, 'return_omegas': True, 'return_zassenhaus': True, 'perturb': pert}
                return approx_inputs(I, kw)

            def post(I, ctx, kind, val, ob):
                sp = approx_spec(I, ctx, nsteps, eta, t, pert)
                ob('cost sequence', lambda: veq(I, val[0], sp['cost'], 'cost'))
                ob('state sequence', lambda: veq(I, val[1], sp['states'], 'states'))
                ob('unitary sequence', lambda: veq(I, val[3], sp['units'], 'unitaries'))
                om = PyList([])
                su = PyList([])
                cnt = V.seqlen(I.lib.segs(sp['units']))
                um = lambda i: to_poly(I.lib.seg_get(I.lib.segs(sp['units']), to_int(T.add(i, ONE))))
                om = PyList([SegMap(to_int(T.sub(cnt, ONE)), lambda i: omega_obj(I.lib.mod(i, ctx['L']), um(i), to_int(T.add(i, ONE))))])
                su = PyList([SegMap(to_int(T.sub(cnt, ONE)), lambda i: sus_obj(I.lib.mod(i, ctx['L']), i))])
                ob('algebra directions', lambda: veq(I, val[2], om, 'omegas'))
                ob('zassenhaus record', lambda: veq(I, val[4], su, 'zassenhaus'))
            k.verify('oranssi.optimizers.approximate_lie_optimizer', f'trajectory[tol={"None" if t is None else "t"},perturb={pert}]', build, post, pre_approx(), [GFO])
