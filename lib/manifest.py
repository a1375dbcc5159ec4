#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks.py and notes.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import checks
import notes

props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = {'property': i,
             'quick_cmd': 'python3 lib/vf.py %s --tier quick' % i,
             'thorough_cmd': 'python3 lib/vf.py %s --tier thorough' % i,
             'evidence_file': 'evidence/%s.json' % i,
             'technique': 'CBMC: symbolic execution of the C sources, SAT',
             'level': 'model_checking',
             'level_note': notes.LEVEL.get(i, '') + ' ' + notes.COMMON}
        m['checks'].append(c)
    else:
        m['not_applicable'].append(
            {'property': i, 'reason': notes.NA.get(i, 'no check built yet')})
m['notes'] = ('Every check rebuilds its encoding from /repo on each run; see '
              'DESIGN.md. No hooks in /repo are needed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', [x['property'] for x in m['not_applicable']])
