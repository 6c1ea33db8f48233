#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS  # noqa: E402
root = os.path.dirname(here)
ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    s = PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i,
                   'thorough_cmd': 'python3 check.py %s thorough' % i,
                   'technique': s['technique'], 'level': 'exploration', 'level_note': s['note']})
na = [{'property': i, 'reason': 'check not built yet'} for i in ids if i not in PROPS]
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check builds the library from /repo/src and /repo/include itself; no hooks in /repo.'}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
