"""C10: local and custom-direction layers take the specified step."""
from contracts.layers import *

ASSUMPTIONS = ['get_full_operator satisfies its contract (property C01)']


def selections(all_words, thorough):
    n = len(all_words)
    if n <= 3 or thorough and n <= 9:
        return [None] + [c for r in range(1, n + 1) for c in itertools.combinations(all_words, r)]
    pick = [all_words[:1], all_words[-1:], all_words[n // 2:n // 2 + 1], all_words[::2], all_words[1:3], all_words[-3:], all_words]
    return [None] + [tuple(p) for p in pick]


def prove(k):
    n, m, eta = integer('n'), integer('m'), real('eta')
    U = matrix('U', T.pow2(n), unit=True)
    base = [T.le(ONE, n), T.ge0(m), T.ge0(eta), T.le(eta, ONE)]
    thorough = k.tier == 'thorough'

    def even(n):
        h = integer('h')
        return [T.eq(n, T.scale(T.const(2), h)), T.le(ONE, h)]
    for r in (1, 2):
        ws = words([r])
        for sel in selections(ws, thorough):
            for trot in (False, True):
                kw = {'eta': eta, 'trotterize': trot}
                if sel is not None:
                    kw['directions'] = PyList([Seg1(d) for d in reversed(sel)])
                use = [w for w in ws if sel is None or w in sel]

                def post(I, ctx, kind, val, ob):
                    ob('returns the specified product', lambda: veq(I, val, local_step(I, U, n, m, eta, r, use, trot), 'unitary'))
                lab = 'all' if sel is None else '+'.join(sel)
                k.verify(LAY + 'LocalLieAlgebraLayer.__call__', f'step[locality={r},directions={lab},trotterize={trot}]', lambda I: {'args': []}, post,
                         base + (even(n) if r == 2 else []), [GFO], call=run_layer('LocalLieAlgebraLayer', [r], kw, n, m, U))
    ws = words([1, 2])
    for sel in selections(ws, thorough):
        for trot in (False, True):
            kw = {'eta': eta, 'trotterize': trot}
            arg = None if sel is None else PyList([Seg1(d) for d in reversed(sel)])
            use = [w for w in ws if sel is None or w in sel]

            def post(I, ctx, kind, val, ob):
                # on one qubit there are no pairs
                ob('returns the specified product', lambda: veq(I, val, custom_step(I, U, n, m, eta, [w for w in use if cl != 'n=1' or len(w) == 1], trot), 'unitary'))
            lab = 'all' if sel is None else '+'.join(sel)
            for cl, pr in [('n=1', [T.eq(n, ONE)]), ('n>=2', [T.le(T.const(2), n)])]:
                if cl == 'n=1' and all(len(w) > 1 for w in use):
                    continue        # no generator at all
                k.verify(LAY + 'CustomDirectionLieAlgebraLayer.__call__', f'step[directions={lab},trotterize={trot},{cl}]', lambda I: {'args': []}, post, base + pr, [GFO],
                         call=run_layer('CustomDirectionLieAlgebraLayer', [arg], kw, n, m, U))
