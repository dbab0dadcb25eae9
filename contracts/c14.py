"""C14: the greedy layers rotate about a generator of maximal absolute total gradient."""
from contracts.layers import *
from pyded import loops
from pyded import solve as S
from contracts.optspec import is_close
from pyded.spec import Ghost

ASSUMPTIONS = ['max(d, key=f) returns a key of d whose f-value is maximal', 'get_full_operator satisfies its contract (property C01)', 'rotosolve satisfies its contract (property C15)']
ROTO = LAY + 'rotosolve'


@contract(ROTO, 'C15')
def rotosolve(I, env):
    """requires: pauli is the matrix of an embedded Pauli word, obs_qnode evaluates the expectation value in U|0>
    ensures: (exp(-i t P/2) U, t) with the optimal t, a function of P, U and the observables"""
    P, U = to_poly(env['pauli']), to_poly(env['circuit_unitary'])
    obs = I.lib.segs(env['observables'])
    t = T.mk('rotoangle', P, U, obs_key(I, obs), typ='real').poly()
    return (Arr(roto(P, U, t)), real_pt(t))


def roto(P, U, t):
    return T.mk('roto', P, U, t, shape=U.shape, typ='complex', unit=True).poly()


def obs_key(I, segs):
    """the list of observables as a term"""
    nm, i = T.newvar('i')
    out = []
    for s in segs:
        if isinstance(s, SegMap):
            o = s.fn(to_int(i))
            bn, bb = T.close([nm], to_poly(I.attr(o, 'matrix')))
            out.append((s.cnt, T.mk('lam', s.cnt, bn, bb, shape=bb.shape)))
        else:
            raise Unsupported('observables of rotosolve')
    return tuple(out)


def gradient(phi, P, n, m):
    """sum_O Im<phi|[P,O]|phi>"""
    return Sum(m, lambda i: T.imag_part(comm_value(phi, P, obs_full(i, n))))


def candidates(U, n, m, words_, skip=None):
    """families (count, index -> (absolute gradient, generator)); `skip` = (word, p) leaves out one qubit set"""
    phi = state_of(U, n)
    out = []
    for d in words_:
        cnt, q = qubit_sets(n, len(d))

        def at(i, d=d, q=q):
            P = embedded(d, q(i), n)
            return gradient(phi, P, n, m), P
        if skip and skip[0] == d:
            p = skip[1]
            out.append((d, p, at))
            out.append((d, to_int(T.sub(T.sub(cnt, p), ONE)), lambda i, at=at, p=p: at(to_int(T.add(T.add(p, ONE), i)))))
        else:
            out.append((d, cnt, at))
    return out


def family(a):
    """(count, index -> term) of a lam atom"""
    cnt, bn, bb = a.args
    if bn == ('none',):
        return ONE, lambda i: bb
    return cnt, lambda i: subst_bound(bn, bb, i)


def subst_bound(bn, bb, i):
    names, vs, b = T.open_binder(bn, bb)
    return b.subst({names[0]: i})


def monotone(I, v, g):
    """v orders the candidates as |g| does"""
    for f in (T.absval(g), T.smul(g, g)):
        try:
            poly_eq(I, v, f, 'value')
            return
        except NotEqual as e:
            err = e
    raise err


def greedy(I, P, expected):
    """P is the generator at an argmax position over exactly the expected candidates"""
    P = to_poly(P)
    at = [(sc, ms, c) for (sc, ms), c in P.terms.items()]
    if len(at) != 1 or at[0][0] or at[0][2] != T.C1 or len(at[0][1]) != 1 or at[0][1][0][1] or at[0][1][0][0].kind != 'pick':
        raise NotEqual(f'not a selected generator: {T.pretty(P)[:200]}')
    sel, tbl = at[0][1][0][0].args
    (((a, _),), _), = sel.terms.keys()
    if a.kind != 'argmaxsel':
        raise NotEqual(f'selected by {a.kind}')
    got = list(zip(a.args[0], tbl))
    left = [(family(x), family(y)) for x, y in got]
    for d, cnt, fn in expected:
        err = None
        for t, ((c1, val), (c2, mat)) in enumerate(left):
            nm, i = T.newvar('i')
            i = to_int(i)
            try:
                require(I, T.eq(c1, cnt), f'{d}: number of candidates')
                require(I, T.eq(c2, cnt), f'{d}: number of generators')
                g, M = fn(i)
                under(I, [T.ge0(i), T.lt(i, cnt)], lambda: (poly_eq(I, mat(i), M, f'{d}: generator'), monotone(I, val(i), g)))
                del left[t]
                break
            except NotEqual as e:
                err = err or e
        else:
            raise NotEqual(f'candidates of direction {d} (count {T.pretty(cnt)}) missing: {err}')
    if left:
        raise NotEqual(f'{len(left)} families of candidates too many')


def prove(k):
    n, m, p = integer('n'), integer('m'), integer('p')
    U = matrix('U', T.pow2(n), unit=True)
    base = [T.le(ONE, n), T.ge0(m)]
    deps = [GFO, ROTO, SUN]

    def run(cls, kw, prev):
        def call(I, ctx):
            dev, obs, u = libqml.device(n), observables(m), Arr(U)
            begin(I, ctx)
            o = I.call(I.lookup_qual(LAY + cls), [dev, obs], dict(kw))
            if prev is not None:
                cnt, q = qubit_sets(n, len(prev))
                I.facts += [T.ge0(p), T.lt(p, cnt)]
                I.set(o, 'previous_pauli', (prev,) + tuple(q(p)))
            ctx['layer'] = o
            return I.call(o, [u], {})
        return call

    def posts(words_, prev, remember):
        def post(I, ctx, kind, val, ob):
            v = to_poly(val)
            (sc, ms), = v.terms.keys() if len(v.terms) == 1 else [((), ())]
            if not ob('one optimal rotation of the unitary passed in', not sc and len(ms) == 1 and ms[0][0].kind == 'roto' and ms[0][1] == ''):
                return
            P, V_, t = ms[0][0].args
            ob('applied to the unitary passed in', lambda: poly_eq(I, V_, U, 'unitary'))
            ob('the angle is optimal for the observables of the layer', lambda: poly_eq(I, t, T.mk('rotoangle', P, U, obs_key(I, observables(m).segs), typ='real').poly(), 'angle'))
            ob('generator of maximal absolute total gradient among all candidates', lambda: greedy(I, P, candidates(U, n, m, words_, prev and (prev, p))))
            if remember:
                q = I.attr(ctx['layer'], 'previous_pauli')
                ob('the generator used is remembered', isinstance(q, SymObj) and q.kind == 'pickkey' and 'dictget' in q.attrs and
                   to_poly(I.lib.dict_get(I.attr(I.attr(ctx['layer'], 'lastate'), 'full_paulis'), q)).key == P.key)
                r = I.attr(ctx['layer'], 'current_pauli')
                ob('the generator used is reported', V.veq_quick(r, q))
        return post
    for a in (True, False):
        for b in (True, False):
            ws = words([1] * a + [2] * b + [3])
            k.verify(LAY + 'SU8_AlgebraLayer.__call__', f'selection[add_su2={a},add_su4={b}]', lambda I: {'args': []}, posts(ws, None, False), base + [T.le(T.const(3), n)], deps,
                     call=run('SU8_AlgebraLayer', {'add_su2': a, 'add_su4': b}, None))
    k.verify(LAY + 'SU8_AlgebraLayer.__call__', 'selection[default]', lambda I: {'args': []}, posts(words([1, 2, 3]), None, False), base + [T.le(T.const(3), n)], deps, call=run('SU8_AlgebraLayer', {}, None))
    sq = 'SquaredLieAlgebraLayer'
    k.verify(LAY + sq + '.__call__', 'selection[first call,n=1]', lambda I: {'args': []}, posts(words([1]), None, True), base + [T.eq(n, ONE)], deps, call=run(sq, {}, None))
    k.verify(LAY + sq + '.__call__', 'selection[first call]', lambda I: {'args': []}, posts(words([1, 2]), None, True), base + [T.le(T.const(2), n)], deps, call=run(sq, {}, None))
    for prev in words([1, 2]):
        k.verify(LAY + sq + '.__call__', f'selection[after {prev}]', lambda I: {'args': []}, posts(words([1, 2]), prev, True), base + [T.le(T.const(2), n)], deps, call=run(sq, {}, prev))
        if len(prev) == 1:
            k.verify(LAY + sq + '.__call__', f'selection[after {prev},n=1]', lambda I: {'args': []}, posts([w for w in words([1]) if w != prev], None, True),
                     base + [T.eq(n, ONE)], deps, call=run(sq, {}, prev))

    # ---- commute=True: one direction, non-overlapping edges
    def crun(prev):
        def call(I, ctx):
            dev, obs, u = libqml.device(n), observables(m), Arr(U)
            begin(I, ctx)
            o = I.call(I.lookup_qual(LAY + sq), [dev, obs], {})
            if prev is not None:
                cnt, q = qubit_sets(n, len(prev))
                I.facts += [T.ge0(p), T.lt(p, cnt)]
                I.set(o, 'previous_pauli', (prev,) + tuple(q(p)))
            ctx['opt'] = Ghost(called=False, asked=False, observables=PyList([]), start=PyList([]), ops=PyList([]))

            def opt(a, kw):
                kw = dict(zip(['circuit', 'params', 'observables', 'device'], a), **kw)
                g, rows = ctx['opt'], I.lib.segs(kw['params'])
                cnt = V.seqlen(rows)
                I.set(g, 'called', True)
                I.set(g, 'asked', kw.get('return_params') is True)
                I.set(g, 'observables', PyList(I.lib.segs(kw['observables'])))
                I.set(g, 'start', PyList(rows))
                old, I.queue = I.queue, PyList([])
                try:
                    I.call(kw['circuit'], [PyList([SegMap(cnt, lambda i: angle('theta', ZERO, i))])], {})
                    I.set(g, 'ops', PyList(I.queue.segs))
                finally:
                    I.queue = old
                return (PyList([]), PyList([SegMap(K, lambda j: PyList([SegMap(cnt, lambda i: angle('angle', j, i))]))]))
            return I.call(o, [u], {'commute': True, 'optimizer': SymObj('optimizer', {}, call=opt, key='optimizer')})
        return call

    K = integer('K')
    last = to_int(T.sub(K, ONE))

    def angle(name, j, i):
        return real_pt(T.app(name, j, i, typ='real'))

    def commuting(ws, prev):
        def post(I, ctx, kind, val, ob):
            if not ob('a unitary and the rotations applied', isinstance(val, tuple) and len(val) == 2 and isinstance(val[1], PyList)):
                return
            outs = I.explore(lambda: case(I, ctx, val, ob))        # one path per direction
            ob('every direction considered', all(o.kind == 'normal' for o in outs))

        def case(I, ctx, val, ob):
            reported = split_guards(I, val[1].segs)
            N = V.seqlen(reported)
            nm, i = T.newvar('i')
            i = to_int(i)

            def at(i):
                v = I.lib.seg_get(tuple(reported), i)
                if isinstance(v, tuple) and v and isinstance(v[0], SymSeq) and \
                        all(isinstance(s, Seg1) for s in v[0].segs):
                    v = (tuple(s.v for s in v[0].segs),) + v[1:]
                if isinstance(v, tuple) and v and isinstance(v[0], SymSeq):
                    raise Unsupported('a direction of symbolic length')
                if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], tuple)):
                    raise NotEqual('not a rotation')
                return v
            d = None

            def shape():
                nonlocal d
                def g():
                    nonlocal d
                    d = at(i)[0][0]
                under(I, [T.ge0(i), T.lt(i, N)], g)
                if d not in ws:
                    raise NotEqual(f'direction {d!r}')
            if not ob('a direction', shape):
                return
            edge = lambda i: tuple(to_int(to_poly(x)) for x in at(i)[0][1:])
            ob('at least one rotation', I.prove(T.le(ONE, N)))
            cnt, q = qubit_sets(n, len(d))

            def edges():
                e = edge(i)
                if len(e) != len(d):
                    raise NotEqual('number of qubits')
                require(I, T.band(*[T.band(T.ge0(x), T.lt(x, n)) for x in e], *[T.lt(x, y) for x, y in zip(e, e[1:])]), 'edge')
            ob('qubit sets of the direction', lambda: under(I, [T.ge0(i), T.lt(i, N)], edges))
            jn, j = T.newvar('j')
            j = to_int(j)
            ob('no two overlap', lambda: under(I, [T.ge0(i), T.lt(i, j), T.lt(j, N)], lambda: require(I, T.band(*[T.bnot(T.eq(x, y)) for x in edge(i) for y in edge(j)]), 'overlap')))
            ob('first direction within tolerance of the maximum', lambda: first_direction(I, ctx, d, candidates(U, n, m, ws, prev and (prev, p))))

            def rotated(gate):
                """the reported rotations, one after the other, after the unitary passed in"""
                V, off = Arr(U), ZERO
                for s in reported:
                    def step(i, st, s=s, off=off):
                        v = s.v if isinstance(s, Seg1) else s.fn(i)
                        e = tuple(to_int(to_poly(x)) for x in v[0][1:])
                        return {'U': Arr(T.matmul(gate(to_int(T.add(off, i)), v[1], e), to_poly(st['U'])))}
                    V = iterate(I, s.n(), step, U=V)['U']
                    off = to_int(T.add(off, s.n()))
                return to_poly(V)
            half = lambda t, P: T.expm(T.scale(T.mul(T.const(-0.5j), to_poly(t)), P))
            ob('the rotations applied are the ones reported', lambda: poly_eq(I, known(I, to_poly(val[0])), rotated(lambda i, t, e: half(t, embedded(d, tuple(num(x) for x in e), n))), 'unitary'))
            ob('at the optimised angles', lambda: under(I, [T.ge0(i), T.lt(i, N)], lambda: poly_eq(I, to_poly(at(i)[1]), angle('angle', last, i), 'angle')))
            ghost = {x: split_guards(I, y.segs) if isinstance(y, PyList) else y for x, y in ctx['opt'].s.items()}
            ob('the optimizer is called', I.prove(to_b(ghost['called'])))
            ob('the optimizer is asked for the angles', I.prove(to_b(ghost['asked'])))
            ob('the cost is that of the observables of the layer', lambda: seq_eq(I, ghost['observables'], observables(m).segs, 'observables', 0))
            ob('one angle per rotation', lambda: require(I, T.eq(V.seqlen(ghost['start']), N), 'angles'))

            def circuit():
                g = Ghost(U=Arr(T.eye(T.pow2(n))))

                def step(op):
                    M, w = to_poly(op.attrs['matrix']), op.attrs['wires']
                    full = Poly(M.terms, (T.pow2(n), T.pow2(n))) if libqml.is_range(I.lib, w, n) and not isinstance(w, SymObj) else libqml.embed(M, libqml.wires_term(I.lib, w), n)
                    I.set(g, 'U', Arr(T.matmul(full, to_poly(g.s['U']))))
                loops.for_loop(I, ghost['ops'], step)
                W = rotated(lambda i, t, e: libqml.embed(libqml.paulirot(angle('theta', ZERO, i), V.str_code(d), len(d)), e, n))
                poly_eq(I, to_poly(g.s['U']), W, 'circuit')
            ob('the circuit that is optimised is the unitary passed in followed by these rotations', circuit)
        return post

    for prev in [None] + words([1, 2]):
        lab = 'commuting rotations' + (f'[after {prev}]' if prev else '')
        k.verify(LAY + sq + '.__call__', lab, lambda I: {'args': []}, commuting(words([1, 2]), prev), base + [T.le(T.const(2), n), T.le(ONE, K)], deps + [GCS], call=crun(prev))
        if not prev or len(prev) == 1:
            k.verify(LAY + sq + '.__call__', lab + '[n=1]', lambda I: {'args': []}, commuting([w for w in words([1]) if w != prev], None), base + [T.eq(n, ONE), T.le(ONE, K)], deps + [GCS], call=crun(prev))


GCS = 'oranssi.circuit_tools.get_commuting_set'


def position(I, e):
    """the position of a qubit set among the sets of its size"""
    if len(e) == 1:
        return to_int(to_poly(e[0]))
    pos = set()
    for t, x in enumerate(e):
        ((sc, _), c), = to_poly(x).terms.items()
        if c != T.C1 or len(sc) != 1 or sc[0][1] != 1 or sc[0][0].kind != 'app' or sc[0][0].args[0] != f'comb{len(e)}_{t}':
            raise Unsupported('call of get_commuting_set: edges')
        pos.add(sc[0][0].args[2])
    if len(pos) != 1:
        raise Unsupported('call of get_commuting_set: edges')
    return to_int(next(iter(pos)))


@contract(GCS, 'C20')
def get_commuting_set(I, env):
    """requires: pairs of different nodes, or different single nodes
    ensures: some of the pairs, at increasing positions, no two of them sharing a node; single nodes come back unchanged"""
    lst = env['edge_list'] if 'edge_list' in env else next(iter(env.values()))
    segs = I.lib.segs(lst)
    N = V.seqlen(segs)
    nm, i = T.newvar('i')
    jn, j = T.newvar('j')
    i, j = to_int(i), to_int(j)
    at = []
    for s in segs:
        if not isinstance(s, SegMap):
            raise Unsupported('call of get_commuting_set: list')
        at.append((s.cnt, s.fn))
    size = {len(f(i)) for _, f in at}
    if len(size) != 1:
        raise Unsupported('call of get_commuting_set: edges')
    size, = size
    if size == 1:
        for a, (c1, f) in enumerate(at):
            for b, (c2, g) in enumerate(at[:a + 1]):
                same = [T.lt(i, j)] if a == b else []
                under(I, [T.ge0(i), T.lt(i, c1), T.ge0(j), T.lt(j, c2)] + same, lambda: require(I, T.bnot(T.eq(to_poly(f(i)[0]), to_poly(g(j)[0]))), 'different nodes'))
        return PyList(segs)
    nq = None
    key = []
    for c, f in at:
        e = f(i)
        under(I, [T.ge0(i), T.lt(i, c)], lambda: require(I, T.bnot(T.eq(to_poly(e[0]), to_poly(e[1]))), 'edge'))
        pos = position(I, e)
        nq = next(x for x in to_poly(e[0]).terms)[0][0][0].args[1]
        bn, bb = T.close([nm], pos)
        key.append(T.mk('lam', c, bn, bb, typ='int'))
    ident = ' '.join(x.key for x in key)
    src = lambda t: to_int(T.app('cs ' + ident, t))
    card = to_int(T.app('cscard ' + ident, ZERO))

    def where(t):
        """position of the t-th edge kept among all qubit sets"""
        s, off, out = src(t), T.ZERO, None
        parts = []
        for c, f in at:
            parts.append((to_int(T.add(off, c)), position(I, f(to_int(T.sub(s, off))))))
            off = to_int(T.add(off, c))
        out = parts[-1][1]
        for c, x in reversed(parts[:-1]):
            out = to_int(T.ite(T.lt(s, c), x, out))
        return out
    edge = lambda t: tuple(num(to_int(T.app(f'comb2_{r}', nq, where(t)))) for r in (0, 1))
    an, a = T.newvar('a')
    bn, b = T.newvar('b')
    a, b = to_int(a), to_int(b)
    apart = T.band(*[T.bnot(T.eq(to_poly(x), to_poly(y))) for x in edge(a) for y in edge(b)])
    ge1 = T.bor(T.le(N, ZERO), T.le(ONE, card))
    mono = T.forall(card, an, T.forall(card, bn, T.bor(T.le(b, a), T.band(T.lt(src(a), src(b)), apart))))
    S.AXIOMS['cscard ' + ident] = lambda x: [T.ge0(card), T.le(card, N), ge1]
    S.AXIOMS['cs ' + ident] = lambda x: [T.bor(T.lt(x.args[1], ZERO), T.le(card, x.args[1]), T.band(T.ge0(to_int(x.poly())), T.lt(to_int(x.poly()), N))), mono]
    return PyList([SegMap(card, edge)])


def first_direction(I, ctx, d, expected):
    """d is the first direction with a candidate whose absolute gradient is within tolerance of the largest one"""
    top, found = {}, []
    maxima = lambda c: {y.key: y for y in S.atoms_of(c).values() if y.kind == 'maxofs'}
    for f in I.facts:
        for x in S.atoms_of(f).values():
            if x.kind == 'app' and x.args[0] in loops.CHOSEN:
                top.update(maxima(loops.CHOSEN[x.args[0]][2]))
    if len(top) != 1:
        raise Unsupported('selection of a direction')
    M, = top.values()
    for name, (cnt, v, c, fvs) in loops.CHOSEN.items():
        if not fvs and M.key in maxima(c):
            found.append((to_int(T.app(name, ZERO)), cnt, lambda i, c=c, v=v: c.subst({v: i})))
    if M.args[0] != 'max':
        raise NotEqual('not the largest gradient')
    nm, i = T.newvar('i')
    i = to_int(i)
    if M.key not in ctx.setdefault('maxima', set()):
        left = [family(x) for x in M.args[1]]
        for w, cnt, fn in expected:
            under(I, [T.ge0(i), T.lt(i, cnt)], lambda: match(I, left, w, cnt, i, T.absval(fn(i)[0])))
        if left:
            raise NotEqual(f'maximum over {len(left)} families too many')
        ctx['maxima'].add(M.key)
    first = False
    for w, cnt, fn in expected:
        near = is_close(T.absval(fn(i)[0]), M.poly(), T.const(1e-3))
        N = None
        for card, c, cond in found:
            e = cond(i)
            if I.prove(T.eq(c, cnt)) and (e.key == near.key or under(I, [T.ge0(i), T.lt(i, cnt)], lambda: I.prove(T.bor(T.bnot(e), near)) and I.prove(T.bor(T.bnot(near), e)))):
                N = card
                break
        if w != d:
            if first:
                break
            if N is None:
                raise NotEqual(f'candidates of direction {w} before {d} not considered')
            require(I, T.le(N, ZERO), f'no candidate of direction {w} before {d}')
        elif N is not None and I.prove(T.le(ONE, N)):
            return
        else:
            first = True
    raise NotEqual(f'no candidate of direction {d} within tolerance')


def known(I, p):
    """p with the alternatives of this path"""
    for a in S.atoms_of(p).values():
        if a.kind == 'ite':
            d = I.prove(a.args[0])
            if d or I.prove(T.bnot(a.args[0])):
                return known(I, S.replace_atom(p, a, a.args[1] if d else a.args[2]))
    return p


def match(I, left, w, cnt, i, g):
    err = None
    for t, (c, val) in enumerate(left):
        try:
            require(I, T.eq(c, cnt), f'{w}: number of candidates')
            poly_eq(I, val(i), g, f'{w}: absolute gradient')
            del left[t]
            return
        except NotEqual as e:
            err = err or e
    raise NotEqual(f'candidates of direction {w} missing: {err}')
