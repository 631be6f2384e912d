"""Writes MANIFEST.json for the properties that have a check."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst import meta

NA = {
    'C18': 'pure functions of their arguments: no concurrency, callbacks between steps, time, I/O or history for a simulator to control; a schedule or fault changes nothing that could be checked',
    'C19': 'a statement about cost, not about outcomes: steps of one operation do not depend on schedules or faults, and wall time or resident memory in a simulator says nothing about the deployed cost',
    'C20': 'a static relation between stub files and code over all client programs; nothing of it happens at run time where a simulator could observe it',
}
checks = []
for p in sorted(meta.FLAVORS):
    m = meta.PROPS[p]
    checks.append({
        'property': p,
        'quick_cmd': 'python3 check.py %s --tier quick' % p,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'deterministic simulation with fault injection: ' + m['technique'],
        'level': m['level'],
        'level_note': m['note'],
    })
man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
       'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
       'notes': 'No hooks in /repo: the seams are the user objects the library calls (hash, eq, iteration, functions, invariants, finalizers), '
                'sys.monitoring instruction events, the CPython allocator hooks and the process boundary. Repairs of genuine defects are the '
                '"fix:" commits listed in KNOWN_FINDINGS.txt.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
