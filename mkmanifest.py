"""Regenerates MANIFEST.json from properties.jsonl and the words below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
TRUST = ('Real zope.index, BTrees, persistent, transaction and ZODB code runs; '
         'only clients, clock, faults and schedule are simulated. Sampling '
         'by seeded search: evidence, not proof. Trusts the reference models '
         'in sim/model.py.')
NOTES = {
    'C10': 'Crash points are cuts of the database log at chosen bytes and '
           'commit phases; reopened also by a second process with another '
           'hash seed. A defect of BTrees itself is a known finding and steered '
           'around. ',
    'C11': 'Each kind of read failure at chosen reads inside each call; two '
           'defects of BTrees itself are known findings and steered around. ',
    'C16': 'Real threads passing a baton at chosen lines, byte codes and '
           'storage reads. ',
    'C21': 'Failing allocations inside the C scorer, failing reads and '
           'evictions in every repetition; memory is counted in interpreter '
           'blocks after a full collection. ',
    'C22': 'The earlier version is a frozen copy of the package in released/, '
           'run in a process of its own for the first part of each history. ',
    'C18': 'The chooser has no schedule; its faults are sources and storage '
           'reads failing part-way. ',
}
TECH = {
    'C16': 'deterministic simulation: seeded thread schedules at line/byte-'
           'code granularity against a reference model',
    'C22': 'deterministic simulation of an upgrade: histories begun by the '
           'earlier code and continued by the code under test, with faults, '
           'crashes, packing and export, against a reference model',
    'C18': 'deterministic simulation: failing sources and storage reads '
           'against a reference model',
}
NA = {
    'N01': 'A pure function of the query string: no schedule, time, I/O, '
           'fault or history for a simulator to decide.',
    'N02': 'A pure function of a list of integers; nothing for a simulator to '
           'schedule or fail. (Its effect on phrase search is decided in '
           'C05.)',
    'N03': 'A pure function of a list of integers, used by nothing else in '
           'the package; nothing to schedule or fail.',
    'N04': 'Pure functions of lists of strings; nothing to schedule or fail. '
           '(Their use in indexing and querying is exercised in C05.)',
    'N05': 'A pure function of its arguments; nothing to schedule or fail. '
           '(Scores merged through it are decided in C06 and C11.)',
}
checks = []
for p in props:
    pid = p['id']
    if pid in NA:
        continue
    cmd = '/opt/venv/bin/python check.py %s --tier %s'
    checks.append({
        'property': pid,
        'quick_cmd': cmd % (pid, 'quick'),
        'thorough_cmd': cmd % (pid, 'thorough'),
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': TECH.get(
            pid, 'deterministic simulation with fault injection: seeded '
            'histories, schedules and faults against a reference model'),
        'level': 'exploration',
        'level_note': NOTES.get(pid, '') + TRUST,
    })
m = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python setup_check.py',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
    'notes': 'No hooks in /repo: every seam the simulator needs exists in '
             'ZODB, transaction and Python itself. Replay a violation with '
             '/opt/venv/bin/python replay.py <file> [-v].',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
