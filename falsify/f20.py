"""C20: get_commuting_set."""
from falsify.common import *
import random
from oranssi.circuit_tools import get_commuting_set


def cases(tier, r):
    q = 1 if tier == 'quick' else 10
    for i in range(120 * q):
        n = int(r.randint(2, 9))
        p = [0.2, 0.5, 0.8, 1.0][i % 4]
        edges = [[a, b] for a in range(n) for b in range(n) if a < b and r.rand() < p] or [[0, 1]]
        edges = [edges[k] for k in r.permutation(len(edges))]
        if i % 3 == 1:
            edges = [e[::-1] if r.rand() < 0.5 else e for e in edges]
        yield {'t': 'edges', 'e': edges, 's': int(r.randint(10 ** 6))}
    for i in range(10):
        yield {'t': 'matching', 'e': [[2 * int(k), 2 * int(k) + 1] for k in r.permutation(int(r.randint(1, 6)))], 's': i}
        yield {'t': 'matching', 'e': [[int(k)] for k in r.permutation(int(r.randint(1, 6)))], 's': i}
    yield {'t': 'matching', 'e': [], 's': 0}
    for e in ([[0, 1], [1, 2], [0, 2]], [[0, 2], [1, 2]], [[0, 1], [0, 2], [0, 3], [0, 4]]):
        for s in range(6):
            yield {'t': 'edges', 'e': [[int(x) for x in f] for f in e], 's': s}


def run(c):
    random.seed(c['s'])
    e = [tuple(x) for x in c['e']]
    given = list(e)
    out = [tuple(x) for x in get_commuting_set(e)]
    need(e == given, 'edge list changed')
    if c['t'] == 'matching':
        return need(out == given, 'disjoint edges: returned %s' % (out,))
    need(all(x in given for x in out), 'returned edges %s not among the given ones' % [x for x in out if x not in given])
    nodes = [v for x in out for v in x]
    need(len(nodes) == len(set(nodes)), 'overlapping edges %s' % (out,))
