#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property whose check exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python harness/run.py '
TECH = 'TLA+ specification checked with TLC, bound to the code by conformance checking of generated and recorded behaviours'
NOTES = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(V, 'harness', f'check_{pid.lower()}.py')):
        n = NOTES.get(pid, {})
        checks.append(dict(property=pid, quick_cmd=PY + pid, thorough_cmd=PY + pid, evidence_file=f'evidence/{pid}.json',
                           technique=n.get('technique', TECH), level=n.get('level', 'model_checking'),
                           level_note=n.get('note', 'bounded: small graphs exhaustively in the model, generated behaviours on the code')))
    else:
        na.append(dict(property=pid, reason='check not built yet'))
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
