"""C19: the edge-colouring heuristic is sound (Hoare-style, loop invariants)."""
import ast
import os
import time
import z3
from pyded import imp
from pyded.imp import *

ASSUMPTIONS = ['networkx graphs: G[u] maps the neighbours of u to the attribute dictionary of the edge, which is the same object in both directions; G.edges() visits every edge, G.nodes() every node',
               'random.choice returns an element of the sequence, random.randint(a, b) an integer in [a, b] (arbitrary, so every random state is covered)',
               'finite cardinalities: |set(xs)| <= len(xs), equal exactly if the elements differ; a set of nodes has at most as many elements as there are nodes',
               'the graph is simple (no self loops, no parallel edges)']
FILE = 'oranssi/edge_coloring.py'
ADJ = z3.Function('adj', Val, Val, z3.BoolSort())
DEG = z3.Function('deg', Val, z3.IntSort())
NODE = z3.Function('isnode', Val, z3.BoolSort())
EDGE = z3.Function('edge', Val, Val, z3.BoolSort())
OTHER = z3.Function('otherattr', Val, Val, Val, z3.BoolSort())
NN, DD = z3.Int('NN'), z3.Int('D')
IM = z3.Function('colours_at', Val, Row, SetS)       # the colours of the edges at a node
u, v, w, x = z3.Consts('u v w x', Val)
k = z3.Int('k')
row, S_ = z3.Const('row', Row), z3.Const('S', SetS)
AX = [z3.ForAll([u, v], z3.Implies(ADJ(u, v), z3.And(ADJ(v, u), u != v, NODE(u), NODE(v))), patterns=[ADJ(u, v)]),
      z3.ForAll([u], z3.Implies(NODE(u), z3.And(Val.is_vnode(u), DEG(u) >= 0, DEG(u) <= DD)), patterns=[NODE(u)]),
      z3.ForAll([u, v], z3.Implies(ADJ(u, v), DEG(u) >= 1), patterns=[ADJ(u, v)]),
      z3.ForAll([u, v], z3.Implies(EDGE(u, v), ADJ(u, v)), patterns=[EDGE(u, v)]),
      z3.ForAll([u, v], z3.Implies(ADJ(u, v), z3.Or(EDGE(u, v), EDGE(v, u))), patterns=[ADJ(u, v)]),
      z3.ForAll([u, row, v], z3.Implies(ADJ(u, v), IM(u, row)[row[v]]), patterns=[z3.MultiPattern(IM(u, row), row[v])]),
      z3.ForAll([u, row, x], IM(u, row)[x] == z3.Exists([v], z3.And(ADJ(u, v), row[v] == x)), patterns=[IM(u, row)[x]]),
      z3.ForAll([u, row], z3.And(card(IM(u, row)) <= DEG(u), card(IM(u, row)) >= 0, z3.Implies(z3.And(NODE(u), DEG(u) >= 1), card(IM(u, row)) >= 1)), patterns=[card(IM(u, row))]),
      z3.ForAll([u, row], z3.Implies(NODE(u), (card(IM(u, row)) == DEG(u)) == z3.ForAll([v, w], z3.Implies(z3.And(ADJ(u, v), ADJ(u, w), row[v] == row[w]), v == w))), patterns=[card(IM(u, row))]),
      NN >= 0, DD >= 2, card(EMPTY) == 0]


def CL(col, a):
    """conflict level of node a"""
    return DEG(a) - card(IM(a, col[a]))


def graph(E):
    E.other = OTHER
    g = Graph(z3.Const('col', ColS), ADJ, DEG, NODE, EDGE, NN)
    E.assume(E.sym(g, g.v))
    return g


def cdict(E):
    return HDict(z3.Const('cd', CdS), lambda i: z3.And(1 <= i, i < DD))


def coloured(col):
    """every edge has a colour 0..D-1"""
    c = col[u][v]
    return z3.ForAll([u, v], z3.Implies(ADJ(u, v), z3.And(is_int(c), 0 <= Val.ival(c), Val.ival(c) < DD)), patterns=[c])


def has_colour(col):
    return z3.ForAll([u, v], z3.Implies(ADJ(u, v), col[u][v] != vabsent), patterns=[col[u][v]])


def book(cd, col):
    """the set under k holds exactly the nodes of conflict level k"""
    return z3.ForAll([k, x], z3.Implies(z3.And(1 <= k, k < DD), cd[k][x] == z3.And(NODE(x), CL(col, x) == k)), patterns=[cd[k][x]])


def colour(c):
    return z3.And(is_int(c), 0 <= Val.ival(c), Val.ival(c) < DD)


def distinct_at(col, a):
    return z3.ForAll([v, w], z3.Implies(z3.And(ADJ(a, v), ADJ(a, w), v != w), col[a][v] != col[a][w]))


def proper_at(col, a):
    return z3.And(distinct_at(col, a), z3.ForAll([v], z3.Implies(ADJ(a, v), colour(col[a][v]))))


def proper(col):
    return z3.ForAll([u], z3.Implies(NODE(u), proper_at(col, u)))


node = lambda a, n: NODE(lift(a[n]))
fint = lambda E: SInt(fresh(z3.IntSort(), 'r'))
fbool = lambda E: SBool(fresh(z3.BoolSort(), 'r'))
isD = lambda a: ('D is the number of colours', toint(a['D']) == DD)
inv = lambda a: [('the bookkeeping matches the colours', book(a['cd'].v, a['G'].v)), ('every edge has a colour 0..D-1', coloured(a['G'].v))]
frame = []


def col_of(a):
    return a['G'].v


def p_update(E, a, old, r):
    c0, c1 = old['cd'], a['cd'].v
    n, o = lift(a['u']), toint(a['old'])
    new = CL(col_of(a), n)
    return [('the node is moved from the old to the new level', z3.ForAll([k, x], z3.Implies(z3.And(1 <= k, k < DD), c1[k][x] == z3.If(x == n, z3.Or(new == k, z3.And(c0[k][x], o != k)), c0[k][x])), patterns=[c1[k][x]])),
            ('the change of the level is returned', toint(r) == new - o)]


def p_color(E, a, old, r):
    g0, g1 = old['G'], col_of(a)
    p, q, c = lift(a['u']), lift(a['v']), lift(a['color'])
    return [('the edge gets the colour', z3.And(g1[p][q] == c, g1[q][p] == c)),
            ('no other edge changes', z3.ForAll([u, v], z3.Implies(z3.And(ADJ(u, v), z3.Not(z3.Or(z3.And(u == p, v == q), z3.And(u == q, v == p)))), g1[u][v] == g0[u][v]), patterns=[g1[u][v]]))] + inv(a)


def p_next(E, a, old, r):
    if not (isinstance(r, tuple) and len(r) == 3):
        raise Unsupported('result of KempeNext')
    n = lift(r[2])
    return [('the old colour is a colour', colour(lift(r[1]))), ('the next node is a neighbour or None', z3.Or(n == vnone, ADJ(lift(a['node']), n))), ('a number is returned', z3.BoolVal(isinstance(r[0], (int, SInt))))] + inv(a)


def p_step(E, a, old, r):
    if not (isinstance(r, tuple) and len(r) == 3):
        raise Unsupported('result of KempeStep')
    c, n = lift(r[2]), lift(r[1])
    return [('the chain goes on from the node', lift(r[0]) == lift(a['node'])), ('it ends, or goes on along an edge with a colour', z3.Or(c == vnone, z3.And(colour(c), ADJ(lift(a['node']), n))))] + inv(a)


def chain(E, s):
    c, l, n = s.val('new_color'), s.val('last'), s.val('node')
    ch = s['Kempe_chain'].v
    a = {'cd': s['conflict_dictionary'], 'G': s['G']}
    return [('the chain continues along an edge with a colour', z3.Or(c == vnone, z3.And(colour(c), ADJ(l, n)))),
            ('the chain consists of nodes', z3.ForAll([x], z3.Implies(ch[x], NODE(x)))),
            ('the chain has at most as many elements as there are nodes', z3.And(card(ch) <= NN, card(ch) >= 0))] + inv(a)


def subset_bound(E, s):
    return None


CARD = [z3.ForAll([S_], z3.Implies(z3.ForAll([x], z3.Implies(S_[x], NODE(x))), z3.And(card(S_) <= NN, card(S_) >= 0)), patterns=[card(S_)])]


def start(E, s):
    nd, nx = s.val('node'), s.val('next_node')
    cs, g = s['colors'].v, s['G'].v
    y = z3.Const('y', Val)
    return [('colours not yet met', z3.ForAll([x], z3.Implies(cs[x], colour(x)), patterns=[cs[x]])),
            ('the repeated colour is at a neighbour', z3.Or(nx == vnone, ADJ(nd, nx))),
            ('colours left', card(cs) >= DD - s.nseen + z3.If(nx == vnone, 0, 1))]


def pre1(E, s):
    g = s['G'].v
    return [('edges visited have lost their colour', z3.ForAll([u, v], z3.Implies(s.seen[u][v], z3.And(g[u][v] != vabsent, g[v][u] != vabsent))))]


def pre2(E, s):
    g = s['G'].v
    return [('every edge has the attribute', has_colour(g)), ('edges visited have a colour 0..D-1', z3.ForAll([u, v], z3.Implies(s.seen[u][v], z3.And(colour(g[u][v]), colour(g[v][u])))))]


def create(E, s):
    cd, g = s['conflict_dictionary'].v, s['G'].v
    return [('levels of the nodes visited', z3.ForAll([k, x], z3.Implies(z3.And(1 <= k, k < DD), cd[k][x] == z3.And(s.seen[x], CL(g, x) == k)), patterns=[cd[k][x]]))]


def heur(E, s):
    p = s.int('previous')
    cd = s['conflict_dictionary'].v
    a = {'cd': s['conflict_dictionary'], 'G': s['G']}
    return [('previous >= 0', p >= 0), ('a node has a conflict while the loop runs', z3.Or(p == 0, z3.Exists([k, x], z3.And(1 <= k, k < DD, cd[k][x]))))] + inv(a)


def heur_variant(E, s):
    rc, lim = s.int('repetitionCounter'), s.int('repetition_limit')
    return [s.int('previous'), z3.If(rc <= lim, lim - rc + 1, 0)]


def apply_inv(E, s):
    return [('every edge has a colour 0..D-1', coloured(s['G'].v))]


def apply_variant(E, s):
    n, lim = s.int('number_of_iterations'), s.int('iteration_limit')
    return [z3.If(n <= lim, lim - n + 1, 0)]


def p_total(E, a, old, r):
    t = toint(r)
    c = a['cd'].v
    return [('not negative', t >= 0), ('zero exactly if no node has a conflict', (t == 0) == z3.ForAll([k, x], z3.Implies(z3.And(1 <= k, k < DD), z3.Not(c[k][x]))))]


def p_max(E, a, old, r):
    t = toint(r)
    c = a['cd'].v
    return [('a level of the dictionary', z3.And(1 <= t, t < DD)), ('some node has it', z3.Exists([x], c[t][x])),
            ('no node has a higher one', z3.ForAll([k, x], z3.Implies(z3.And(t < k, k < DD), z3.Not(c[k][x]))))]


some = lambda a: ('some node has a conflict', z3.Exists([k, x], z3.And(1 <= k, k < DD, a['cd'].v[k][x])))


def returned_dict(E):
    return HDict(fresh(CdS, 'cd'), lambda i: z3.And(1 <= i, i < DD))


def p_create(E, a, old, r):
    if not isinstance(r, HDict):
        raise Unsupported('result of createConflictDictionary')
    return [('the levels 1..D-1', z3.ForAll([k], r.dom(k) == z3.And(1 <= k, k < DD))), ('the bookkeeping matches the colours', book(r.v, col_of(a)))]


C = {
    'properlyColored': Contract(['G', 'u', 'D'], lambda E, a: [isD(a), ('a node', node(a, 'u')), ('coloured', coloured(col_of(a)))],
                                lambda E, a, old, r: [('true exactly if the colours at the node differ and are in range', boolterm(r) == proper_at(col_of(a), lift(a['u'])))],
                                fbool, facts=lambda E, a: SBool(proper_at(col_of(a), lift(a['u'])))),
    'checkEdgeColoring': Contract(['G', 'D'], lambda E, a: [isD(a), ('coloured', coloured(col_of(a)))], lambda E, a, old, r: [('true exactly for a proper colouring', boolterm(r) == proper(col_of(a)))], fbool),
    'conflictLevel': Contract(['G', 'u'], lambda E, a: [('a node', node(a, 'u')), ('coloured', coloured(col_of(a)))], lambda E, a, old, r: [('degree minus number of colours', toint(r) == CL(col_of(a), lift(a['u'])))], fint),
    'createConflictDictionary': Contract(['G', 'D'], lambda E, a: [isD(a), ('coloured', coloured(col_of(a)))], p_create, returned_dict, loops=[Loop(create)]),
    'updateConflictDictionary': Contract(['G', 'u', 'cd', 'old'],
                                         lambda E, a: [('a node', node(a, 'u')), ('coloured', coloured(col_of(a))), ('the node is listed under the old level', z3.Implies(toint(a['old']) > 0, z3.And(toint(a['old']) < DD, a['cd'].v[toint(a['old'])][lift(a['u'])])))],
                                         p_update, fint, ['cd']),
    'maxConflictLevel': Contract(['cd'], lambda E, a: [some(a)], p_max, fint),
    'totalNumberOfConflicts': Contract(['cd'], None, p_total, fint),
    'colorEdgeAndUpdate': Contract(['G', 'u', 'v', 'color', 'cd'], lambda E, a: [('an edge', ADJ(lift(a['u']), lift(a['v']))), ('a colour', colour(lift(a['color'])))] + inv(a), p_color, fint, ['G', 'cd']),
    'KempeNext': Contract(['G', 'last', 'node', 'new_color', 'cd'], lambda E, a: [('an edge', ADJ(lift(a['last']), lift(a['node']))), ('a colour', colour(lift(a['new_color'])))] + inv(a), p_next,
                          lambda E: (fint(E), SVal(fresh(Val, 'old')), SVal(fresh(Val, 'next'))), ['G', 'cd']),
    'KempeStep': Contract(['G', 'last', 'node', 'new_color', 'cd'], lambda E, a: [('an edge', ADJ(lift(a['last']), lift(a['node']))), ('a colour', colour(lift(a['new_color'])))] + inv(a), p_step,
                          lambda E: (SVal(fresh(Val, 'last')), SVal(fresh(Val, 'node')), SVal(fresh(Val, 'colour'))), ['G', 'cd']),
    'KempeProcess': Contract(['G', 'last', 'node', 'new_color', 'cd'], lambda E, a: [('an edge', ADJ(lift(a['last']), lift(a['node']))), ('a colour', colour(lift(a['new_color'])))] + inv(a),
                             lambda E, a, old, r: inv(a), lambda E: None, ['G', 'cd'], loops=[Loop(chain, lambda E, s: [NN - card(s['Kempe_chain'].v)])]),
    'KempeStart': Contract(['G', 'D', 'node', 'cd'], lambda E, a: [isD(a), ('a node', node(a, 'node'))] + inv(a), lambda E, a, old, r: inv(a), lambda E: None, ['G', 'cd'], loops=[Loop(start)]),
    'preColoring': Contract(['G', 'D'], lambda E, a: [isD(a)], lambda E, a, old, r: [('every edge has a colour 0..D-1', coloured(col_of(a)))], lambda E: None, ['G'], loops=[Loop(pre1), Loop(pre2)]),
    'heuristic': Contract(['G', 'D', 'limit'], lambda E, a: [isD(a), ('coloured', coloured(col_of(a)))], lambda E, a, old, r: [('every edge has a colour 0..D-1', coloured(col_of(a))), ('a truth value', z3.BoolVal(isinstance(r, (bool, SBool))))], fbool, ['G'],
                          loops=[Loop(heur, heur_variant)]),
    'applyHeuristic': Contract(['G', 'D', 'rl', 'il'], lambda E, a: [isD(a)],
                               lambda E, a, old, r: [('every edge has a colour 0..D-1', coloured(col_of(a))), ('True exactly for a proper colouring', boolterm(r) == proper(col_of(a)))], fbool, ['G'],
                               loops=[Loop(apply_inv, apply_variant)]),
}
KIND = {'G': graph, 'cd': cdict, 'D': lambda E: SInt(DD), 'u': lambda E: SVal(z3.Const('arg_u', Val)), 'v': lambda E: SVal(z3.Const('arg_v', Val)), 'node': lambda E: SVal(z3.Const('arg_node', Val)),
        'last': lambda E: SVal(z3.Const('arg_last', Val)), 'color': lambda E: SVal(z3.Const('arg_color', Val)), 'new_color': lambda E: SVal(z3.Const('arg_new_color', Val)),
        'old': lambda E: SInt(z3.Int('arg_old')), 'limit': lambda E: SInt(z3.Int('arg_limit')), 'rl': lambda E: SInt(z3.Int('arg_rl')), 'il': lambda E: SInt(z3.Int('arg_il'))}


def prove(kk):
    with open(os.path.join(kk.repo, FILE)) as f:
        tree = ast.parse(f.read())
    for name in C:
        kk.hoare('oranssi.edge_coloring.' + name, 'contract', tree, C, name, AX + CARD, lambda E, name=name: {i: KIND[i](E) for i in C[name].inputs})
