"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property -> (level, technique, note)
PROVED = {
    'C01': 'get_full_operator verified for all n, k, ordered tuples of distinct wires and matrices',
    'C02': 'the basis builders are verified for all n (recursion over itertools.product words), names and matrices, both flags',
    'C03': 'get_hamiltonian_matrix and operator_2_norm are verified for all n, observable lists, coefficients and square matrices',
    'C04': 'gate extraction, initial unitary, first state and first cost are verified for all circuits, n and observable lists',
    'C05': 'exact_lie_optimizer is verified for all n, circuits, observable lists, eta, tol and step counts',
    'C06': 'approximate_lie_optimizer is verified for every list of abstract layers and every step count',
    'C07': 'stopping and perturbation protocol of the three optimisers verified for all histories of costs',
    'C08': 'every combination of the result flags of the three optimisers is verified',
    'C09': 'validation of every option is verified over types and all numbers; NaN and infinities only by the bounded stand-in',
    'C10': 'local and custom layers verified for all n, observables, etas, direction subsets and flags',
    'C11': 'unitarity check, projection and their use in the layers verified for all matrices',
    'C12': 'enumerations of the three algebra classes verified for all n and flags',
    'C13': 'gradient read-out verified for all n, unitaries and observable lists, for every layer class',
    'C14': 'selection, rotation and memory of both greedy layers, and with commute=True the direction, the non-overlapping edges, the circuit optimised and the reported rotations, verified for all n, unitaries, observable lists and each of the 13 kinds of history',
    'C15': 'rotosolve verified for every hermitian involution P, unitary and observable list',
    'C16': 'Pauli construction, product, equality and conj verified for all sites, letters and numeric coefficients; sympy coefficients only by the bounded stand-in',
    'C17': 'constructor, product, commutator, commutes_with, conj and to_oranssi verified for monomials of any length, letters, sites and numeric coefficients',
    'C18': 'every method of PauliSum verified with contracts, loop invariants, induction lemmas on sums and a variant of the recursion, for sums of any length and all coefficients; == and hash of monomials for any length',
    'C19': 'every function of edge_coloring.py verified with contracts, loop invariants and variants (termination) for all simple graphs, numbers of colours and random choices',
    'C20': 'get_commuting_set verified for every list of pairs (any length, nodes, repetitions) and of single nodes; relies on the contract of applyHeuristic (C19)',
    'C21': 'both conversions verified for all angles, all pure states and (range, trace check) all matrices',
    'C23': 'selection after every previous direction, and circuit, start, result and memory for every history of layers, verified for all n, unitaries and observable lists; the optimizer is an arbitrary function',
    'C22': 'parameter_shift_optimizer verified for all circuits, observable lists, parameters and step counts',
}
MIXED = {
    'C24': 'frame conditions (nothing from before the call changes, results returned earlier included) proved for the functions under contract of C01-C08, C10-C15, C17, C20-C23; the remaining functions (edge colouring, adapt-VQE, Pauli sums) only by the bounded stand-in',
}
ASSUME = ' Assumed: contracts of numpy/scipy/PennyLane/networkx/itertools, exact instead of floating-point arithmetic, the pyded engine and z3.'
checks = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    c = {'property': pid, 'quick_cmd': 'python3 check.py %s --tier quick' % pid, 'thorough_cmd': 'python3 check.py %s --tier thorough' % pid, 'evidence_file': 'evidence/%s.json' % pid}
    if pid in PROVED:
        c.update(level='proof', technique='contract-based deductive verification of the real Python source (pyded + z3), replay on the real code', level_note=PROVED[pid] + '.' + ASSUME)
    elif pid in MIXED:
        c.update(level='other', technique='contract-based deductive verification of the real Python source (pyded + z3); bounded stand-in for the rest', level_note=MIXED[pid] + '.' + ASSUME)
    else:
        c.update(level='exploration', technique='bounded stand-in: real code against the contract on generated inputs', level_note='bounded: no obligation proved yet; concrete cases from the seed')
    checks.append(c)
man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [],
       'notes': 'No hooks in /repo. /repo carries only fix: commits; see known_findings.jsonl.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
