#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'bin', 'notes.json')))
m = {'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'checks': [], 'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks compile the unmodified sources of /repo'},
     'not_applicable': []}
for p in sorted(NOTES):
    n = NOTES[p]
    if 'reason' in n:
        m['not_applicable'].append({'property': p, 'reason': n['reason']})
        continue
    m['checks'].append({'property': p, 'quick_cmd': 'python3 bin/check.py %s quick' % p,
                        'thorough_cmd': 'python3 bin/check.py %s thorough' % p,
                        'technique': n['technique'], 'level': 'model_checking', 'level_note': n['note']})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
