"""C01: get_full_operator embeds a local operator into the full register, for every n, k, ordered wire tuple and matrix."""
from contracts.lib import *
from pyded import solve as S
from pyded import loops

GFO = 'oranssi.circuit_tools.get_full_operator'
ASSUMPTIONS = ['numpy reshape of a 2^h x 2^h matrix to 2h axes of length 2: row bits, then column bits, most significant first (C order)',
               'np.einsum with integer labels sums the product of the entries over the labels that are not in the output; registers within numpy limits (2n <= 32 axes, 2n + 2k <= 52 labels)']


def _w_ax(a):
    """the wires are pairwise different: winv is a left inverse on the k wires"""
    i = a.args[1]
    k = integer('k')
    return [T.bor(T.lt(i, ZERO), T.le(k, i), T.band(T.ge0(to_int(a.poly())), T.eq(to_int(T.app('c1winv', to_int(a.poly()))), i)))]


S.AXIOMS['c1w'] = _w_ax
loops.INVERSE['c1w'] = 'c1winv'


def w(i):
    return to_int(T.app('c1w', i, typ='int'))


def among(p, k):
    """p is one of the wires"""
    i = to_int(T.app('c1winv', p))
    return T.band(T.ge0(i), T.lt(i, k), T.eq(w(i), p))


def embeds(I, val, op, n, k, ob):
    """entry (r, c) of the result is op[r_w, c_w] prod_{j not a wire} delta(r_j, c_j).

    The result is sum_{labels not in the output} prod_t A_t[labels].  One operand is the identity, prod_j delta(f(j), f(n+j)), the other
    is op with row labels e(0..k-1) and column labels e(k..2k-1).  When the labels c(i) of one side of op are summed, the delta of wire
    w(i) replaces c(i) by its partner; conditions 1-5 make the remaining factors those of the specification."""
    p = to_poly(val)
    (sc, ms), = p.terms.keys() if len(p.terms) == 1 else [((), ())]
    if sc or len(ms) != 1 or ms[0][1] or ms[0][0].kind != 'einsum' or p.terms[(sc, ms)] != T.C1:
        raise Unsupported('form of the embedding')
    ops, n2, bn, bb = ms[0][0].args
    if len(ops) != 2:
        raise Unsupported('form of the embedding')
    eye = T.eye(T.pow2(n))
    isid = [t for t in (0, 1) if ops[t][0].key == eye.key and I.prove(T.eq(ops[t][1], n))]
    if not isid:
        raise Unsupported('form of the embedding')
    F, E = ops[isid[0]], ops[1 - isid[0]]
    if not ob('contracted with the operator itself', lambda: poly_eq(I, E[0], op, 'operator')):
        return
    fn = lambda b: (lambda i, b=b: to_int(T.open_binder(*b)[2].subst({T.open_binder(*b)[0][0]: i})))

    def at(bn, bb):
        names, _, body = T.open_binder(bn, bb)
        return lambda i: to_int(body.subst({names[0]: to_int(i)}))
    e, f, out = at(*E[2:]), at(*F[2:]), at(bn, bb)
    two_n, two_k = T.scale(T.const(2), n), T.scale(T.const(2), k)
    i, q, u, v, j = [to_int(T.newvar(c)[1]) for c in 'iquvj']
    rng = lambda x, m: [T.ge0(x), T.lt(x, m)]
    ob('2n output axes', lambda: require(I, T.eq(n2, two_n), 'axes'))

    def attempt(cols):
        """cols: the column labels of op are summed (op applied from the left), else its row labels"""
        kept = lambda i: e(i) if cols else e(T.add(k, i))
        summed = lambda i: e(T.add(k, i)) if cols else e(i)
        row = lambda x: x if cols else T.add(n, x)          # axis of the identity contracted for wire x
        oth = lambda x: T.add(n, x) if cols else x
        need = lambda fs, c, why: under(I, fs, lambda: require(I, c, why))
        need(rng(u, two_n) + rng(v, two_n), T.bor(T.bnot(T.eq(out(u), out(v))), T.eq(u, v)), '1: output labels pairwise different')
        need(rng(i, k), T.eq(out(row(w(i))), kept(i)), '2: the output axis of wire i carries the kept label of op')
        need(rng(i, k), T.eq(f(row(w(i))), summed(i)), '3: the identity axis of wire i is contracted with op')
        need(rng(i, k), T.eq(out(oth(w(i))), f(oth(w(i)))), '3: the other axis of wire i is an output axis')
        need(rng(i, k) + rng(u, two_n), T.bnot(T.eq(out(u), summed(i))), '4: contracted labels are not in the output')
        need(rng(i, k) + rng(u, two_n), T.bor(T.bnot(T.eq(f(u), summed(i))), T.eq(u, row(w(i)))), '4: contracted labels occur once in the identity')
        need(rng(i, k) + rng(q, two_k), T.bor(T.bnot(T.eq(e(q), summed(i))), T.eq(q, T.add(k, i) if cols else i)), '4: contracted labels occur once in op')
        need(rng(j, n) + [T.bnot(among(j, k))], T.bor(T.band(T.eq(f(j), out(j)), T.eq(f(T.add(n, j)), out(T.add(n, j)))), T.band(T.eq(f(j), out(T.add(n, j))), T.eq(f(T.add(n, j)), out(j)))),
             '5: identity on the other qubits')

    def goal():
        try:
            attempt(True)
        except NotEqual as x:
            try:
                attempt(False)
            except NotEqual:
                raise x
    ob('op on the wires in their order, identity elsewhere', goal)


def prove(k_):
    n, k, m = integer('n'), integer('k'), integer('m')
    op = matrix('A', T.pow2(m))
    base = [T.le(ONE, n), T.le(ONE, k), T.ge0(m)]
    seq = {'tuple': lambda: SymSeq([SegMap(k, lambda i: num(w(i)))]), 'list': lambda: PyList([SegMap(k, lambda i: num(w(i)))])}

    def post(I, ctx, kind, val, ob):
        nm, i = T.newvar('i')
        i = to_int(i)
        inside = T.forall(k, nm, T.lt(w(i), n))
        if kind == 'raise':
            ob('rejected with AssertionError', val.exc == 'AssertionError', val.exc)
            ob('rejected only for a wire outside the register or a matrix of another size', T.bnot(T.band(inside, T.eq(m, k))))
            return
        ob('every wire outside the register is rejected', inside)
        ob('every matrix of another size is rejected', T.eq(m, k))
        embeds(I, val, op, n, k, ob)
        ob('the matrix passed in is unchanged', lambda: veq(I, ctx['args'][0], Arr(op), 'op'))
    for t, mk in seq.items():
        k_.verify(GFO, f'embedding[wires a {t}]', lambda I: {'args': [Arr(op), mk(), num(n)]}, post, base, expect=('return', 'raise'))
