"""C20: commuting sets never overlap."""
from contracts.lib import *
from pyded import solve as S
from pyded import loops

ASSUMPTIONS = ['networkx.from_edgelist: an edge for every listed pair, degree() gives every node with its degree']
FN = 'oranssi.circuit_tools.get_commuting_set'
HEUR = 'oranssi.edge_coloring.applyHeuristic'


@contract(HEUR, 'C19')
def applyHeuristic(I, env):
    """requires: D >= 2 and D >= every degree; ensures: every edge has a colour (an int); the result is a bool"""
    g, D = env['G'], to_int(to_poly(env['D']))
    nm, i = T.newvar('i')
    if type(g).__name__ != 'Graph' or not I.prove(T.le(T.const(2), D)) or not I.prove(T.forall(g.n, nm, T.le(g.deg(to_int(i)), D))):
        raise Unsupported('call of applyHeuristic: number of colours not provably large enough')
    I.set(g, 'coloured', True)
    return from_b(T.eq(to_int(T.app(f'heuristic {g.gid}', ZERO)), ONE))


def prove(k):
    L = integer('L')
    e0 = lambda i: to_int(T.app('e0', to_int(i)))
    e1 = lambda i: to_int(T.app('e1', to_int(i)))
    i, j = [to_int(T.newvar(c)[1]) for c in 'ij']
    an, a = T.newvar('a')
    bn, b = T.newvar('b')
    a, b = to_int(a), to_int(b)
    loopfree = T.forall(L, an, T.bnot(T.eq(e0(a), e1(a))))
    S.AXIOMS['e0'] = S.AXIOMS['e1'] = lambda x: [T.ge0(to_int(x.poly()))]
    share = lambda x, y: T.bor(*[T.eq(p(x), q(y)) for p in (e0, e1) for q in (e0, e1)])
    disjoint = T.forall(L, an, T.forall(L, bn, T.bor(T.eq(a, b), T.bnot(share(a, b)))))

    def build(I):
        lst = PyList([SegMap(L, lambda i: (num(e0(i)), num(e1(i))))])
        return {'args': [lst], 'list': lst}

    def same_list(I, v):
        sg = I.lib.segs(v)
        require(I, T.eq(V.seqlen(sg), L), 'number of edges')
        under(I, [T.ge0(i), T.lt(i, L)], lambda: [require(I, T.eq(to_poly(x), p(i)), 'edge') for x, p in zip(I.lib.seg_get(tuple(sg), i), (e0, e1))])

    def post(I, ctx, kind, val, ob):
        if not ob('a list', isinstance(val, PyList)):
            return
        ob('the list passed in is unchanged', lambda: same_list(I, ctx['list']))
        sg = split_guards(I, I.lib.segs(val))
        N = V.seqlen(sg)
        at = lambda t: I.lib.seg_get(sg, t)

        def nodes(t):
            v = at(t)
            if not (isinstance(v, tuple) and len(v) == 2):
                raise NotEqual('not an edge')
            return [to_int(to_poly(x)) for x in v]

        def source(t):
            """position in the given list of the t-th returned edge"""
            p = nodes(t)[0]
            for x in S.atoms_of(p).values():
                if x.kind == 'app' and x.args[0] in ('e0', 'e1'):
                    return x.args[1]
            raise NotEqual('not one of the given edges')

        def given():
            s, t = source(i), source(j)
            u, v = nodes(i)
            require(I, T.band(T.ge0(s), T.lt(s, L)), 'position in the given list')
            require(I, T.band(T.eq(u, e0(s)), T.eq(v, e1(s))), 'orientation')
            require(I, T.lt(s, t), 'order')
        rng = [T.ge0(i), T.lt(i, j), T.lt(j, N)]
        ob('edges of the given list, same orientation and order', lambda: (under(I, rng, given), under(I, [T.ge0(i), T.lt(i, N)], lambda: (require(I, T.band(*[T.eq(x, p(source(i))) for x, p in zip(nodes(i), (e0, e1))], T.ge0(source(i)), T.lt(source(i), L)), 'edge')))))
        ob('no two share a node', lambda: under(I, rng, lambda: require(I, T.band(*[T.bnot(T.eq(x, y)) for x in nodes(i) for y in nodes(j)]), 'shared node')))
    k.verify(FN, 'pairs', build, post, [T.ge0(L), loopfree], [HEUR])

    def post(I, ctx, kind, val, ob):
        ob('disjoint edges are returned unchanged', lambda: same_list(I, val))
    k.verify(FN, 'disjoint pairs', build, post, [T.ge0(L), loopfree, disjoint], [HEUR])
    # generators on single qubits: tuples with one node each, pairwise different
    q = lambda i: to_int(T.app('q0', to_int(i)))
    dq = T.forall(L, an, T.forall(L, bn, T.bor(T.eq(a, b), T.bnot(T.eq(q(a), q(b))))))

    def post(I, ctx, kind, val, ob):
        ob('returned unchanged', lambda: (require(I, T.eq(V.seqlen(I.lib.segs(val)), L), 'length'), under(I, [T.ge0(i), T.lt(i, L)], lambda: require(I, T.eq(to_poly(I.lib.seg_get(tuple(I.lib.segs(val)), i)[0]), q(i)), 'node'))))
    k.verify(FN, 'single nodes', lambda I: {'args': [PyList([SegMap(L, lambda i: (num(q(i)),))])]}, post, [T.ge0(L), dq], [HEUR])
