"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: '
CHECKS = {
    'C01': 'seeded histories of saves and loads on a simulated disk with benign faults and clock jumps, exact comparison',
    'C02': 'seeded crash points, torn and lost writes, racing savers and damage at rest on a simulated disk; every load judged against the set of saved versions',
    'C03': 'seeded storage errors, kills and rejected saves on a simulated disk; acknowledged saves must be durable',
    'C04': 'seeded histories of member changes and use, refinement against an ordered-dictionary model and a fresh build',
    'C05': 'seeded histories of rejected changes over a graph of locked and shared dictionaries, judged against a model with lock flags',
    'C06': 'seeded histories and interleavings of default changes with explicit and default calls, judged against patterns without defaults',
    'C07': 'seeded thread interleavings (line and bytecode) of operations on shared patterns, each compared with the call alone',
    'C08': 'exceptions injected at seeded yield points, callbacks and arguments; every later operation compared with a history without the fault',
    'C09': 'seeded histories with adversarial writes into arguments and results, compared with untouched twins',
    'C10': 'seeded histories over patterns, copies and JSON copies, each with its own model',
    'C11': 'seeded histories and interleavings of registrations, look-ups and rejected requests against a registry model',
    'C12': 'seeded call histories, re-entrancy, interleavings and injected callback failures against the plain composition',
    'C13': 'seeded histories of preconditioner changes and use against a dense-matrix model',
    'C14': 'failing and interrupted preconditioner changes at seeded points; the pair in force compared with the previous one',
    'C15': 'seeded histories of evaluations, resets and failing callbacks against a counter model; printed and logged events compared',
    'C16': 'seeded histories and real optimiser runs with buffers reused and overwritten, log compared with a recorded copy',
    'C17': 'seeded histories of draws, reseeding and restored generator states; replayed draws compared',
    'C18': 'seeded histories, nesting and interleavings of many operators with failing callbacks against dense models',
    'C19': 'seeded histories of descents with failures, interrupts, checkpoints on a simulated disk, crashes, restarts and threads; every descent compared with the same descent alone',
    'C21': 'seeded histories of the other properties (faults, interrupts, kills, threads) in processes with random settings; settings compared before, at callbacks and after, results with processes of ordinary settings',
    'C20': 'imports interrupted or failing at seeded lines, reads, dependencies and git calls, or run by several threads; the package obtained and the process state compared with an undisturbed import',
}
NOTE = ('Evidence from seeded sampling, not proof: no violation in the '
        'explored runs of the real package code.  Trusts the simulator and '
        'reference models in /verif/sim, numpy, scipy and autograd.  ')
NOTES = {
    'C01': 'Real numpy/zipfile on real scratch files below the fault layer; kernel and device behaviour is modelled.',
    'C02': 'Power-loss model: 512-byte sectors not synced may be lost individually; damage of extras outside the value and pattern is not claimed (numpy may skip a checksum there).',
    'C03': 'Kill of the process only: nothing in numpy or the documentation promises fsync, so power loss right after an acknowledged save is not claimed.',
    'C07': 'Switches at line and bytecode boundaries inside paragami; numpy, scipy and autograd internals are atomic.',
    'C08': 'Exceptions at line and bytecode boundaries inside paragami and in member callbacks; not inside C code.',
    'C14': 'Interrupts are injected only at points where the object, when asked, still answers with the complete old pair.',
    'C15': 'No asynchronous interrupts: an evaluation fails through the objective, the printing or the logging.',
    'C18': 'Concurrent use is explored for evaluation and single-level derivatives (autograd keeps global trace state).',
    'C19': 'Objectives fail outside nested traces only (autograd keeps its trace stack after an exception there); points of different scipy runs are compared with a tolerance.',
    'C21': 'Settings under which numpy or warnings raise are not used (an exception is then their purpose).',
    'C20': 'Interrupts at lines of the package, not inside its dependencies; threads import the top-level package first (CPython may detect an import deadlock otherwise).',
}
NA = {
    'C30': 'A pure function of one pattern and one value: no schedule, clock, fault or history it could depend on, so there is nothing for a simulator to decide (round trips do occur inside the histories of C01, C04 and C07, but only as far as those properties need).',
    'C31': 'A pure function of one free vector; no nondeterminism, state, I/O or second party is involved.',
    'C32': 'Acceptance depends on the pattern and the value alone; deciding the accepted set is input generation, not simulation.',
    'C33': 'A mathematical identity of one call; no schedule or fault can influence it (state that could, cached Jacobian functions and copies, is decided under C07, C08 and C10).',
    'C34': 'A pure function of one pattern and one boolean selection.',
    'C35': 'Pure functions of their array arguments with no state; their derivatives are a question of inputs only.',
    'C36': 'Pure functions of a spectrum and thresholds; the stateful use of them is decided under C13 and C14.',
}


def main():
    checks = []
    for pid in sorted(CHECKS):
        if not os.path.exists(os.path.join(HERE, 'sim', 'props',
                                           pid.lower() + '.py')):
            continue
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py run {} --tier quick'.format(pid),
            'thorough_cmd':
                'python3 check.py run {} --tier thorough'.format(pid),
            'technique': TECH + CHECKS[pid],
            'level': 'exploration',
            'level_note': NOTE + NOTES.get(pid, ''),
        })
    na = [{'property': k, 'reason': v} for k, v in sorted(NA.items())]
    done = {c['property'] for c in checks}
    for pid in sorted(CHECKS):
        if pid not in done:
            na.append({'property': pid, 'reason': 'check not built yet'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 check.py doctor',
                   'checks': checks, 'not_applicable': na,
                   'notes': 'No hooks in /repo: yield points are found by '
                            'sys.settrace.  See DESIGN.md.'}, f, indent=1)
        f.write('\n')


main()
