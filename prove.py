"""Prover entry: discharges the obligations of one property against /repo's current source (run with python3-vt)."""
import argparse
import importlib
import json
import os
import sys
import time

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--debug', action='store_true')
    a = ap.parse_args()
    from pyded import spec, solve
    from contracts import lib
    spec.DEBUG = a.debug
    t0 = time.time()
    k = spec.K(a.pid, a.repo, lib.CONTRACTS, trace=a.debug)
    k.tier = a.tier
    k.limit = 240 if a.tier == 'quick' else 1200
    k.jobs = 1 if a.debug else a.jobs
    err = None
    try:
        mod = importlib.import_module('contracts.c' + a.pid[1:])
        mod.prove(k)
        k.join()
    except SyntaxError as e:
        k.rep.unsupported.append(('parse', str(e)))
    except Exception as e:      # an engine limitation is not a verdict about the code
        if a.debug:
            raise
        k.rep.unsupported.append(('engine', '%s: %s' % (type(e).__name__, e)))
        k.join()
    r = k.rep
    out = {'obligations': r.obl, 'unsupported': r.unsupported, 'functions': r.functions, 'inlined': sorted(r.inlined), 'used': sorted(r.used), 'paths': r.paths,
           'discharged_by': {q: lib.DISCHARGED_BY.get(q) for q in sorted(r.used)}, 'stats': dict(solve.STATS), 'wall_s': round(time.time() - t0, 2),
           'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) if 'mod' in dir() or 'mod' in locals() else []}
    s = json.dumps(out, indent=1, default=str)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(s)
    if not a.out or a.debug:
        for o in r.obl:
            print(('ok   ' if o['ok'] else 'FAIL ') + o['name'] + ('' if o['ok'] else '\n     ' + o['detail'][:1500]))
        for u in r.unsupported:
            print('UNSUPPORTED', *u)
        print(len(r.obl), 'obligations', sum(o['ok'] for o in r.obl), 'discharged', dict(solve.STATS), out['wall_s'], 's')


main()
