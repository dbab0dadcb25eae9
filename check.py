#!/usr/bin/env python3
"""Decides one property: `python3 check.py C05 [--tier quick|thorough]`.

1. prover: every obligation generated from /repo's current source must be discharged (pyded + z3);
2. replay search: the falsifier runs the real code on concrete inputs against an independent oracle.  It confirms a failed
   obligation with a failing input, and it is the (bounded, labelled) stand-in for functions outside the prover's reach.
Exit 0: held.  Exit 1 and a VIOLATION line: broken."""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
EV = os.environ.get('VERIF_EVIDENCE_DIR') or os.path.join(HERE, 'evidence')
TRUSTED = ['pyded engine (/verif/pyded): Python subset semantics, loop summarisation, equality of exact terms', 'z3 4.x (linear/non-linear integer and real side conditions)',
           'assumed contracts of numpy, scipy.linalg, PennyLane, networkx (pyded/libnp.py, pyded/libqml.py, pyded/libs.py)',
           'floating point treated as exact real/complex arithmetic', 'CPython ast module (extraction of the source of /repo on every run; nothing is dropped except docstrings, print arguments and type annotations)']


def run_prover(pid, tier, repo, out, limit):
    cmd = ['python3-vt', os.path.join(HERE, 'prove.py'), pid, '--repo', repo, '--tier', tier, '--out', out]
    return subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=HERE, env=dict(os.environ, PYTHONHASHSEED='0'))


def run_falsifier(pid, tier, seed, repo, out, budget):
    sh = 'source /opt/vp/env.sh; exec /opt/venv/bin/python -W ignore "$@"'
    cmd = ['bash', '-c', sh, 'x', os.path.join(HERE, 'falsify', 'run.py'), pid, '--repo', repo, '--tier', tier, '--seed', str(seed), '--budget', str(budget), '--out', out]
    return subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=repo)


def finish(p, limit):
    try:
        _, err = p.communicate(timeout=limit)
        return p.returncode, (err or b'').decode(errors='replace')[-1500:]
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, 'time limit'


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known(pid):
    out = []
    path = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    pid, tier = a.pid, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(EV, 'replay'), exist_ok=True)
    plimit, fbudget = (450, 150) if tier == 'quick' else (1500, 1200)
    with tempfile.TemporaryDirectory() as tmp:
        po, fo = os.path.join(tmp, 'p.json'), os.path.join(tmp, 'f.json')
        pp = run_prover(pid, tier, a.repo, po, plimit)
        fp = run_falsifier(pid, tier, seed, a.repo, fo, fbudget)
        frc, ferr = finish(fp, fbudget + 200)
        prc, perr = finish(pp, max(1, plimit - (time.time() - t0)) + 30)
        P, F = load(po), load(fo)
    if F is None and ferr != 'time limit':
        with tempfile.TemporaryDirectory() as tmp:      # once more: the process can have been ended for lack of memory
            fo = os.path.join(tmp, 'f.json')
            frc, ferr = finish(run_falsifier(pid, tier, seed, a.repo, fo, fbudget), fbudget + 200)
            F = load(fo)
    P = P or {'obligations': [], 'unsupported': [['prover', perr or 'no result']], 'functions': {}, 'inlined': [], 'used': [], 'paths': 0, 'stats': {}, 'wall_s': 0, 'discharged_by': {},
              'assumptions': []}
    failed = [o for o in P['obligations'] if not o['ok']]
    fails = F['failures'] if F else []
    kn = known(pid)
    fresh = [f for f in fails if not any(d.get('case') == f['case'] for d in kn)]
    for d in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, d['what']))
    violation, replay = None, os.path.join(EV, 'replay', pid + '.json')
    import_broken = F is None and ferr and ('Error' in ferr) and frc not in (None, 0)
    if fresh:
        violation = {'property': pid, 'kind': 'failing input on the real code', 'case': fresh[0]['case'], 'error': fresh[0]['error'], 'where': fresh[0]['where'],
                     'replay_cmd': 'bash -c "source /opt/vp/env.sh; cd /repo; /opt/venv/bin/python -W ignore %s/falsify/run.py %s --replay %s"' % (HERE, pid, replay),
                     'failed_obligations': failed[:5], 'more_failing_inputs': fresh[1:]}
    elif import_broken:
        violation = {'property': pid, 'kind': 'the code cannot be loaded or the run was aborted', 'case': None, 'error': ferr, 'failed_obligations': failed[:5]}
    elif failed:
        violation = {'property': pid, 'kind': 'undischarged obligation, no failing input found', 'obligation': failed[0]['name'], 'verifier_output': failed[0].get('detail', ''),
                     'path_condition': failed[0].get('path', []), 'failed_obligations': failed[:8]}
    disch = len(P['obligations']) - len(failed)
    level = 'proof'
    man = load(os.path.join(HERE, 'MANIFEST.json')) or {}
    for c in man.get('checks', []):
        if c['property'] == pid:
            level = c['level']
    cov = {'obligations': len(P['obligations']), 'discharged': disch, 'checker_cmd': 'python3-vt prove.py %s' % pid, 'trusted_base': TRUSTED,
           'functions_under_contract': P['functions'], 'inlined_functions': P['inlined'], 'callee_contracts_used': P.get('discharged_by', {}), 'paths': P['paths'], 'back_end': P['stats'],
           'prover_seconds': P['wall_s'], 'obligation_names': sorted({o['name'] for o in P['obligations']})[:200],
           'undecided_by_prover': P['unsupported'],
           'bounded_stand_in': {'what': 'falsifier on the real code (not counted as proved)', 'evaluations': F['evaluations'] if F else 0, 'distinct': F['distinct'] if F else 0,
                                'cases_by_kind': F['labels'] if F else {}, 'truncated': F['truncated'] if F else True, 'error': None if F else ferr},
           'evaluations': F['evaluations'] if F else 0, 'distinct_nontrivial': F['distinct'] if F else 0,
           'rule': 'cases of falsify/f%s.py from the seed; distinct by their JSON text; every case runs code of /repo' % pid[1:],
           'samples': (F['samples'] if F else [])[:4],
           'explanation': 'obligations discharged by the deductive engine; the bounded stand-in covers what undecided_by_prover lists'}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0,
          'assumptions': P.get('assumptions', []) + ['floating-point arithmetic treated as exact; library contracts assumed (see trusted_base)']}
    with open(os.path.join(EV, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if violation:
        with open(replay, 'w') as f:
            json.dump(violation, f, indent=1, default=str)
        print('%s: %s' % (pid, violation.get('error') or violation.get('obligation')))
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if fresh or import_broken else ' no-failing-input-found'))
        return 1
    if not P['obligations'] and not (F and F['evaluations']):
        print('%s: nothing was checked: %s %s' % (pid, P['unsupported'], ferr))
        return 2
    print('%s: %d/%d obligations discharged, %d undecided, %d concrete cases, %.1f s' % (pid, disch, len(P['obligations']), len(P['unsupported']), F['evaluations'] if F else 0, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
