"""Specification of the layer steps."""
import itertools
from contracts.lib import *
from contracts.pauliset import *
from contracts.optspec import state_of, GFO
from contracts.c12 import qubit_sets, words

LAY = 'oranssi.opt_tools.'


def comm_value(phi, P, O):
    """<phi|[P,O]|phi>"""
    return T.matmul(T.matmul(T.conj(phi), T.sub(T.matmul(P, O), T.matmul(O, P))), phi)


def embedded(d, q, n):
    return libqml.embed(word_matrix(d), tuple(to_int(to_poly(x)) for x in q), n)


def local_step(I, U, n, m, eta, r, sel, trotter, post=lambda V: V):
    """for every observable, for every qubit set: exp(-(eta/2^n) sum_P <[P,O]> P), or one factor per P"""
    phi = state_of(U, n)
    f = T.neg(T.smul(eta, T.powm1(T.pow2(n)))) if hasattr(T, 'powm1') else None
    cnt, q = qubit_sets(n, r)

    def over_obs(i, s):
        O = obs_full(i, n)

        def over_sets(g, t):
            V = to_poly(t['U'])
            acc = None
            for d in sel:
                P = embedded(d, q(g), n)
                X = T.scale(comm_value(phi, P, O), P)
                if trotter:
                    V = T.matmul(post(T.expm(T.scale(minus_rate(eta, n), X))), V)
                else:
                    acc = X if acc is None else T.add(acc, X)
            if not trotter and acc is not None:
                V = T.matmul(post(T.expm(T.scale(minus_rate(eta, n), acc))), V)
            return {'U': Arr(V)}
        return iterate(I, cnt, over_sets, U=s['U'])
    return iterate(I, m, over_obs, U=Arr(U))['U']


def minus_rate(eta, n):
    """-(eta / 2^n)"""
    return T.neg(T.div(eta, T.pow2(n)))


def custom_step(I, U, n, m, eta, sel, trotter, post=lambda V: V):
    """all selected (word, qubit set) generators, words in basis order, qubit sets lexicographic"""
    phi = state_of(U, n)

    def over_obs(i, s):
        O = obs_full(i, n)
        V = to_poly(s['U'])
        if trotter:
            for d in sel:
                cnt, q = qubit_sets(n, len(d))

                def gen(g, t, d=d, q=q):
                    P = embedded(d, q(g), n)
                    return {'U': Arr(T.matmul(post(T.expm(T.scale(minus_rate(eta, n), T.scale(comm_value(phi, P, O), P)))), to_poly(t['U'])))}
                V = to_poly(iterate(I, cnt, gen, U=Arr(V))['U'])
            return {'U': Arr(V)}
        N = T.pow2(n)
        acc = Poly({}, (N, N))
        for d in sel:
            cnt, q = qubit_sets(n, len(d))

            def term(g):
                P = embedded(d, q(g), n)
                return T.scale(comm_value(phi, P, O), P)
            acc = T.add(acc, Sum(cnt, term))
        return {'U': Arr(T.matmul(post(T.expm(T.scale(minus_rate(eta, n), acc))), V))}
    return iterate(I, m, over_obs, U=Arr(U))['U']


def run_layer(cls, args, kw, n, m, U, calls=1):
    def call(I, ctx):
        c = I.lookup_qual(LAY + cls)
        dev, obs, u, rest = libqml.device(n), observables(m), Arr(U), [copied(a) for a in args]
        begin(I, ctx)
        o = I.call(c, [dev, obs] + rest, dict(kw))
        ctx['layer'] = o
        return again(I, ctx, lambda x: I.call(o, [x], {}), u)
    return call
