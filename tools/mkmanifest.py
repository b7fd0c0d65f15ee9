#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties which have a check (harness/props.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    p = props.PROPS[i]
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}', 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': 'no check has been built yet'} for i in ids if i not in props.PROPS],
     'notes': 'Every check compiles generated classes against the headers in /repo/lib (or the generator in /repo/generator) from the current working tree. No hooks are needed in /repo.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
