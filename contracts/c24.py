"""C24: frame conditions - the functions under contract change nothing that existed before the call.

The contracts of the other properties are verified once more with another postcondition: every object (array, list,
dictionary, set, instance, module namespace) that existed when the function was called is as it was, except the attributes of
the layer object whose method is called (rebound, never changed in place).  Results returned earlier are such objects."""
import importlib
from contracts.lib import *

ASSUMPTIONS = ['library functions do not modify their arguments (numpy, scipy, PennyLane, networkx, itertools as used in /repo)',
               'pseudo-random numbers are a function of the state of the generator']
PARTS = ['c22', 'c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15', 'c17', 'c20', 'c21', 'c23']


class Frames:
    def __init__(self, k, part):
        self.k, self.part = k, part

    def __getattr__(self, a):
        return getattr(self.k, a)

    def lemma(self, *a, **k):
        pass

    def verify(self, qual, name, build, post, pre=(), contracts=(), expect=('return',), **kw):
        def frame(I, ctx, kind, val, ob):
            own = list(ctx.get('trace') or ())
            a = ctx['args']
            if a and isinstance(a[0], Inst) and any(a[0].cls is c or c in a[0].cls.mro() for c in [I.lookup_qual(qual.rsplit('.', 1)[0])] if isinstance(c, ClassV)) and not qual.startswith('oranssi.pauli'):
                own.append(a[0])
            ch = changed_since(I, ctx, own)
            ob('nothing from before the call is changed', not ch, ', '.join(ch[:4]))
        if qual == 'oranssi.pauli.PauliMonomial.conj':      # conjugates in place by design
            return
        def inputs(I):
            ctx = build(I)
            ctx['_twice'] = True
            return ctx
        self.k.verify(qual, f'{name} [{self.part}]', inputs, frame, pre, contracts, ('return', 'raise'), **kw)


def prove(k):
    for p in PARTS:
        importlib.import_module('contracts.' + p).prove(Frames(k, p.upper()))
