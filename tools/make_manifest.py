#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check module is claimed."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TECH = {}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')):
        t, note = TECH[pid]
        checks.append(dict(property=pid, quick_cmd='./run.sh %s --quick' % pid, thorough_cmd='./run.sh %s --thorough' % pid,
                           evidence_file='evidence/%s.json' % pid, technique=t, level='model_checking', level_note=note))
    else:
        na.append(dict(property=pid, reason='no check has been built yet'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo. Every check imports (or, for the Fortran converter, compiles) the code of /repo\'s working tree.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
