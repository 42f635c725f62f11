#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks and the properties not claimed (run by hand; the file is committed)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
NA = json.load(open(os.path.join(here, 'tools', 'na.json')))
NOTE = ('Seeded random search, not exhaustive: what it reports is real and replays exactly; what it does not report is not proved '
        'absent. Trusts the simulator (simulated disk, scheduler that preempts at source lines and disk operations) and the oracle '
        'in sim/; real code: all of gsapi, json, pickle, glob, io buffering, on CPython 3.12 and, for a share of the runs, Jython 2.7. ')
EXTRA = json.load(open(os.path.join(here, 'tools', 'notes.json')))
checks = []
for i in ids:
    if i in NA:
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 sim/run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 sim/run.py ' + i,
                   'technique': 'deterministic simulation with fault injection: ' + EXTRA[i][0], 'level': 'exploration',
                   'level_note': NOTE + EXTRA[i][1]})
m = {'version': 1, 'setup_cmd': 'python3 sim/setup.py', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items() if k in ids],
     'notes': 'No hooks in /repo: the simulator replaces the seams from outside (file system calls, random, threads, locks).'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
