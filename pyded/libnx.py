"""Assumed contract of the networkx calls of /repo (from_edgelist on a list of pairs)."""
from . import terms as T
from . import solve as S
from .terms import Unsupported
from .values import *
from .values import num
from .interp import RaiseSig


class Graph(Obj):
    """simple graph with the edges of a list of pairs of nodes"""
    _id = 0

    def __init__(self, segs):
        super().__init__()
        Graph._id += 1
        self.gid = Graph._id
        self.segs = tuple(segs)
        self.s['coloured'] = False
        L = T.ZERO
        for s in segs:
            L = T.add_raw(L, s.n())
        L = to_int(L)
        nn, dg = f'gnodes {self.gid}', f'gdeg {self.gid}'
        S.AXIOMS[nn] = lambda a: [T.ge0(to_int(a.poly())), T.bor(T.le(L, T.ZERO), T.le(T.const(2), to_int(a.poly())))]
        S.AXIOMS[dg] = lambda a: [T.le(T.ONE, to_int(a.poly()))]
        self.n = to_int(T.app(nn, T.ZERO))
        self.node = lambda i: num(to_int(T.app(f'gnode {self.gid}', to_int(i))))
        self.deg = lambda i: to_int(T.app(dg, to_int(i)))


def attr(lib, a):
    if a == 'from_edgelist':
        def f(args, kw):
            sg = lib.segs(args[0])
            for s in sg:
                nm, i = T.newvar('i')
                v = s.v if isinstance(s, Seg1) else s.fn(to_int(i)) if isinstance(s, SegMap) else None
                if not (isinstance(v, tuple) and len(v) == 2 and all(is_num(x) for x in v)):
                    raise Unsupported('edges of a graph')
            return Graph(sg)
        return Builtin('networkx.from_edgelist', f)
    raise Unsupported('networkx.' + a)


def graph_attr(lib, g, a):
    if a == 'degree':
        return Builtin('Graph.degree', lambda args, kw: SymSeq([SegMap(g.n, lambda i: (g.node(i), num(g.deg(i))))]) if not args else _no('degree of a node'))
    if a == 'number_of_nodes':
        return Builtin('Graph.' + a, lambda args, kw: num(g.n))
    raise Unsupported('Graph.' + a)


def _no(w):
    raise Unsupported(w)


def graph_item(lib, g, x):
    o = SymObj('adjacency', key=('adj', g.gid, to_poly(x).key))
    o.attrs['getitem'] = lambda y: edge(lib, g, to_int(to_poly(x)), to_int(to_poly(y)))
    return o


def indices(p):
    out = {}
    for a in S.atoms_of(p).values():
        if a.kind == 'app' and len(a.args) == 2:
            out[a.args[1].key] = a.args[1]
    return out.values()


def is_edge(lib, g, x, y):
    I = lib.I
    for s in g.segs:
        if isinstance(s, Seg1):
            cands = [(s.v, None)]
        else:
            cands = [(s.fn(i), i) for i in indices(x)]
        for (u, v), i in cands:
            u, v = to_poly(u), to_poly(v)
            rng = [] if i is None else [T.ge0(i), T.lt(i, s.cnt)]
            if I.prove(T.band(*rng, T.bor(T.band(T.eq(u, x), T.eq(v, y)), T.band(T.eq(u, y), T.eq(v, x))))):
                return True
    return False


def edge(lib, g, x, y):
    if not is_edge(lib, g, x, y):
        raise Unsupported('edge of a graph not provably present')

    def get(k):
        if k == 'color' and g.s['coloured']:
            c = to_int(T.app(f'gcolour {g.gid}', x, y))
            return num(c)
        raise RaiseSig('KeyError', str(k))
    o = SymObj('edge attributes', key=('edge', g.gid, x.key, y.key))
    o.attrs['getitem'] = get
    return o
