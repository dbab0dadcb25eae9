"""Runs the falsifier of one property on the real code (PyPy + PennyLane); writes a JSON report."""
import argparse
import contextlib
import importlib
import json
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=120)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()
    sys.path.insert(0, os.path.dirname(HERE))
    sys.path.insert(0, a.repo)
    import numpy as np
    mod = importlib.import_module('falsify.f' + a.pid[1:])
    t0 = time.time()
    rep = {'evaluations': 0, 'labels': {}, 'samples': [], 'failures': [], 'truncated': False}
    if a.replay:
        cases = [json.load(open(a.replay))['case']]
    else:
        cases = mod.cases(a.tier, np.random.RandomState(a.seed))
    seen = set()
    devnull = open(os.devnull, 'w')
    for case in cases:
        if time.time() - t0 > a.budget:
            rep['truncated'] = True
            break
        case = json.loads(json.dumps(case))
        key = json.dumps(case, sort_keys=True)
        rep['evaluations'] += 1
        seen.add(key)
        rep['labels'][case['t']] = rep['labels'].get(case['t'], 0) + 1
        if rep['labels'][case['t']] == 1:
            rep['samples'].append(case)
        np.random.seed(12345)
        try:
            with contextlib.redirect_stdout(devnull):
                mod.run(case)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb][-6:]
            rep['failures'].append({'case': case, 'error': '%s: %s' % (type(e).__name__, str(e)[:1500]), 'where': where})
            if len(rep['failures']) >= 3:
                break
    rep['distinct'] = len(seen)
    rep['wall_s'] = round(time.time() - t0, 2)
    s = json.dumps(rep, indent=1)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(s)
    else:
        print(s)
    if a.replay:
        sys.exit(1 if rep['failures'] else 0)


main()
