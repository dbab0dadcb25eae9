"""C19: edge colouring."""
from falsify.common import *
import networkx as nx
import random
from oranssi import edge_coloring as ec


def cases(tier, r):
    q = 1 if tier == 'quick' else 8
    for i in range(60 * q):
        n = int(r.randint(2, 9))
        p = [0.2, 0.5, 0.9, 1.0][i % 4]
        edges = [[a, b] for a in range(n) for b in range(a) if r.rand() < p]
        if not edges:
            edges = [[0, 1]]
        yield {'t': 'apply', 'edges': edges, 'extra': int([0, 0, 1, 2][i % 4]), 'iso': i % 6 == 5, 's': int(r.randint(10 ** 6)), 'lim': [[50, 50], [0, 0], [3, 1]][i % 3]}
    for i in range(60 * q):
        n = int(r.randint(2, 7))
        edges = [[a, b] for a in range(n) for b in range(a) if r.rand() < 0.6] or [[0, 1]]
        D = int(r.randint(1, 6))
        yield {'t': 'check', 'edges': edges, 'D': D, 'cols': [int(x) for x in r.randint(-1 if i % 5 == 0 else 0, D + (1 if i % 4 == 0 else 0), len(edges))], 'greedy': i % 2 == 1}
    for i in range(40 * q):
        n = int(r.randint(3, 8))
        edges = [[a, b] for a in range(n) for b in range(a) if r.rand() < 0.7] or [[0, 1]]
        yield {'t': 'conflict', 'edges': edges, 's': int(r.randint(10 ** 6)), 'k': 6}
    for e, D in [([[0, 1], [1, 2]], 2), ([[0, 1], [1, 2], [2, 0]], 3), ([[0, 1], [1, 2], [2, 3], [3, 0]], 2), ([[0, 1], [2, 3]], 2)]:
        yield {'t': 'solves', 'edges': e, 'D': D}


def proper(G, D):
    for u in G.nodes():
        cs = [G[u][v]['color'] for v in G[u]]
        if len(set(cs)) != len(cs) or any(not (isinstance(x, int) and 0 <= x < D) for x in cs):
            return False
    return True


def levels(G):
    out = {}
    for u in G.nodes():
        l = len(list(G[u])) - len(set(G[u][v]['color'] for v in G[u]))
        if l > 0:
            out.setdefault(l, set()).add(u)
    return out


def maxdeg(G):
    return max(len(list(G[u])) for u in G.nodes())


def run(c):
    G = nx.Graph()
    G.add_edges_from([tuple(e) for e in c['edges']])
    if c.get('iso'):
        G.add_node(99)
    nodes, edges = sorted(G.nodes()), sorted(tuple(sorted(e)) for e in G.edges())
    if c['t'] == 'check':
        if c['greedy']:
            for e in G.edges():
                used = set(G[u][v].get('color') for u in e for v in G[u])
                G[e[0]][e[1]]['color'] = min(x for x in range(99) if x not in used)
        else:
            for e, x in zip(c['edges'], c['cols']):
                G[e[0]][e[1]]['color'] = x
        got = ec.checkEdgeColoring(G, c['D'])
        need(bool(got) == proper(G, c['D']), 'checkEdgeColoring returned %s' % got)
        for u in G.nodes():
            cs = [G[u][v]['color'] for v in G[u]]
            need(ec.conflictLevel(G, u) == len(cs) - len(set(cs)), 'conflictLevel')
        return
    if c['t'] in ('apply', 'solves'):
        random.seed(c.get('s', 3))
        D = c['D'] if c['t'] == 'solves' else max(2, maxdeg(G)) + c['extra']
        lim = c.get('lim', [50, 50])
        ok = ec.applyHeuristic(G, D, lim[0], lim[1])
        need(sorted(G.nodes()) == nodes and sorted(tuple(sorted(e)) for e in G.edges()) == edges, 'graph structure changed')
        for u, v in G.edges():
            x = G[u][v]['color']
            need(isinstance(x, int) and 0 <= x < D and G[v][u]['color'] == x, 'edge %s has colour %r' % ((u, v), x))
        need(bool(ok) == proper(G, D), 'reported %s, colouring is %s' % (ok, 'proper' if proper(G, D) else 'not proper'))
        if c['t'] == 'solves':
            need(ok, 'no proper colouring of %s with %d colours' % (c['edges'], D))
        return
    random.seed(c['s'])
    D = max(2, maxdeg(G))
    ec.preColoring(G, D)
    cd = ec.createConflictDictionary(G, D)

    def same(why):
        lv = levels(G)
        need({k: set(v) for k, v in cd.items() if v} == lv, '%s: conflict dictionary %s, graph has %s' % (why, cd, lv))
        tot = sum(k * len(v) for k, v in lv.items())
        need(ec.totalNumberOfConflicts(cd) == tot, 'totalNumberOfConflicts')
        if lv:
            need(ec.maxConflictLevel(cd) == max(lv), 'maxConflictLevel')
        for u, v in G.edges():
            need(G[u][v]['color'] in range(D), 'colour out of range')
    same('initial')
    r = np.random.RandomState(c['s'])
    es = list(G.edges())
    for k in range(c['k']):
        u, v = es[int(r.randint(len(es)))]
        before = {x: ec.conflictLevel(G, x) for x in (u, v)}
        d = ec.colorEdgeAndUpdate(G, u, v, int(r.randint(D)), cd)
        same('after recolouring')
        need(d == ec.conflictLevel(G, v) - before[v], 'reported variation')
        lv = levels(G)
        if lv:
            node = sorted(lv[max(lv)])[0]
            ec.KempeStart(G, D, node, cd)
            same('after a Kempe process')
