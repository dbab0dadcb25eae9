"""Contracts of /repo functions used at call sites (each is discharged against the body by the named property)."""
from pyded import terms as T
from pyded import libqml
from pyded.terms import Poly, Unsupported
from pyded.values import *
from pyded.spec import *
from pyded.interp import RaiseSig

CONTRACTS = {}
DISCHARGED_BY = {}


def contract(qual, by):
    def deco(f):
        CONTRACTS[qual] = f
        DISCHARGED_BY[qual] = by
        return f
    return deco


@contract('oranssi.circuit_tools.get_full_operator', 'C01')
def get_full_operator(I, env):
    """requires: wires are distinct and >= 0 (checked at every call with explicit wires; a wire token stands for a valid tuple);
    ensures: AssertionError if a wire is >= nqubits or op is not 2^len(wires) square, else result = E(op, wires, nqubits)"""
    op = to_poly(env['op'])
    n = to_int(to_poly(env['nqubits']))
    w = libqml.wires_term(I.lib, env['wires'])
    if isinstance(w, tuple):
        for a, x in enumerate(w):
            if not I.prove(T.ge0(x)) or any(not I.prove(T.bnot(T.eq(x, y))) for y in w[:a]):
                raise Unsupported('call of get_full_operator: wires not provably distinct and non-negative')
        if not w:
            raise RaiseSig('ValueError', 'get_full_operator: no wires')
        if not I.decide(T.band(*[T.lt(x, n) for x in w])):
            raise RaiseSig('AssertionError', 'get_full_operator: wire outside the register')
        if op.shape is None or len(op.shape) != 2 or not I.decide(T.eq(op.shape[0], T.const(2 ** len(w)))):
            raise RaiseSig('AssertionError', 'get_full_operator: matrix size')
    return Arr(libqml.embed(op, w, n))
