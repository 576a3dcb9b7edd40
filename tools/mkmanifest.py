"""Writes MANIFEST.json: claimed = the properties that have a module in sim/props."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
TECH = {
    'C01': 'deterministic simulation: seeded operation histories over shared nodes with storage faults, state invariant after every operation',
    'C02': 'deterministic simulation: seeded schedules of real threads (park / preempt at lines, calls, reads), compared with sequential execution',
    'C03': 'deterministic simulation: storage fault injection with retries against a fault free reference execution',
    'C04': 'deterministic simulation: storage faults and missing files, then heal and bounded recovery (the next operation)',
    'C05': 'deterministic simulation: asynchronous exceptions at scheduled instants, then repetition against an undisturbed execution',
    'C06': 'deterministic simulation: histories under a storage that denies access, invariant over the storage event log',
    'C07': 'deterministic simulation: storage failing everywhere outside the contributing region, invariant over the read log',
    'C08': 'deterministic simulation: histories that damage files after evaluate(), invariant over results and storage log',
    'C09': 'deterministic simulation: histories with thread schedules, interruptions and caller mutations against a pristine process',
    'C10': 'deterministic simulation: switches flipped mid-history with storage faults, against the default configuration',
    'C11': 'deterministic simulation: faults and interruptions with an open-file invariant after every operation',
    'C12': 'deterministic simulation: histories of file replacement, failures and rebuilt pipelines against a pristine process',
    'C13': 'deterministic simulation: override histories with faults and interruptions against freshly built pipelines',
    'C14': 'deterministic simulation: request histories with storage faults and file removal over three readers, against the known file content',
    'C15': 'deterministic simulation: operation histories with interruptions against a reference LRU',
    'C16': 'deterministic simulation: crash and short / failed writes at every file system event, recovery from the surviving files',
    'C17': 'deterministic simulation: the same history in several processes that differ in hash seed, addresses, collections and environment',
    'C18': 'deterministic simulation: histories with faults and interruptions under allocation tracing, memory invariant after every operation',
    'C19': 'deterministic simulation: faults, interruptions and thread schedules with an invariant over process-wide settings and files',
}
NOTE = ('Seeded sampling of {what}; not exhaustive. Real library, GDAL, OpenCV and file system; scheduler, storage failures and '
        'asynchronous exceptions are simulated. Trusts the reference execution (same code, undisturbed, pristine process) and the fixture writers.')
WHAT = {
    'C02': 'schedules', 'C05': 'interruption points', 'C09': 'histories, schedules and interruption points',
    'C16': 'crash points', 'C17': 'histories and process configurations',
}
PURE = {
    'C30': 'optimize() is a pure function of the pipeline: no schedule, fault, clock or history enters, so there is nothing to simulate',
    'C31': 'numerical equivalence of a pure computation over all inputs; no fault, schedule or history involved',
    'C32': 'algebra of transforms, a pure function of the pipeline',
    'C33': 'algebra of channel specs, pure functions of strings (their independence from history is C09)',
    'C34': 'grammar round trips, pure functions of strings (their independence from history is C09)',
    'C35': 'numerical property of pure functions',
    'C36': 'pure string encoding (its independence from history is C09)',
    'C37': 'pure rendering of a graph',
}
claimed = [i for i in ids if os.path.exists(os.path.join(ROOT, 'sim', 'props', i.lower() + '.py'))]
checks = []
for i in claimed:
    checks.append(dict(
        property=i,
        quick_cmd='/opt/venv/bin/python check.py %s --tier quick' % i,
        thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % i,
        technique=TECH[i], level='exploration',
        level_note=NOTE.format(what=WHAT.get(i, 'histories and fault sequences'))))
na = [dict(property=i, reason=PURE.get(i, 'planned, machinery not finished yet')) for i in ids if i not in claimed]
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; sys.exit(sys.version_info < (3, 12))"',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo: the seams are installed from outside by sim/seam.py, sim/sched.py (sys.monitoring) and sim/locks.py. check.py ID [--tier T] [--seed N] [--replay FILE]; see DESIGN.md')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print('claimed', claimed)
