"""first differences between two terms"""
from . import terms as T
from .terms import Poly, B, Atom


def diff(x, y, path='', out=None, depth=0):
    out = [] if out is None else out
    if len(out) > 8:
        return out
    if type(x) is not type(y):
        out.append((path, x, y))
        return out
    if isinstance(x, Atom):
        if x.key == y.key:
            return out
        if x.kind != y.kind or len(x.args) != len(y.args):
            out.append((path, x, y))
            return out
        n = len(out)
        for i, (a, b) in enumerate(zip(x.args, y.args)):
            diff(a, b, f'{path}/{x.kind}.{i}', out, depth + 1)
        if len(out) == n:
            out.append((path + ' FLAGS', (x.kind, x.herm, x.unit, x.typ), (y.kind, y.herm, y.unit, y.typ)))
        return out
    if isinstance(x, Poly):
        if x.key == y.key:
            return out
        kx = sorted(x.terms.items(), key=lambda t: T.word_key(t[0]))
        ky = sorted(y.terms.items(), key=lambda t: T.word_key(t[0]))
        sx = {T.word_key(k): (k, c) for k, c in kx}
        sy = {T.word_key(k): (k, c) for k, c in ky}
        ox = [v for k, v in sx.items() if k not in sy]
        oy = [v for k, v in sy.items() if k not in sx]
        if len(ox) == len(oy):
            for (k1, c1), (k2, c2) in zip(ox, oy):
                a1 = [a for a, _ in k1[0]] + [a for a, _ in k1[1]]
                a2 = [a for a, _ in k2[0]] + [a for a, _ in k2[1]]
                if len(a1) == len(a2):
                    n = len(out)
                    for p, q in zip(a1, a2):
                        diff(p, q, path, out, depth + 1)
                    if len(out) == n:
                        out.append((path + ' MODS', k1, k2))
                else:
                    out.append((path, k1, k2))
        else:
            out.append((path, x, y))
        return out
    if isinstance(x, B):
        if x.key == y.key:
            return out
        if x.kind != y.kind or len(x.args) != len(y.args):
            out.append((path, T.pretty_b(x), T.pretty_b(y)))
            return out
        for i, (a, b) in enumerate(zip(x.args, y.args)):
            diff(a, b, f'{path}/{x.kind}.{i}', out, depth + 1)
        return out
    if isinstance(x, tuple):
        if len(x) != len(y):
            out.append((path, x, y))
            return out
        for i, (a, b) in enumerate(zip(x, y)):
            diff(a, b, f'{path}({i})', out, depth + 1)
        return out
    if x != y:
        out.append((path, x, y))
    return out
