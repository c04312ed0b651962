#!/usr/bin/env python3
"""Appends to known_findings.json: findings.py fixed PID COMMIT 'what' | known PID MATCH 'what' [WHY-regex]."""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(P)) if os.path.exists(P) else dict(findings=[], fixed=[])
k = sys.argv[1]
if k == 'fixed':
    d['fixed'].append(f'fixed: property={sys.argv[2]} {sys.argv[3]} {sys.argv[4]}')
elif k == 'known':
    e = dict(property=sys.argv[2], match=sys.argv[3], what=sys.argv[4])
    if len(sys.argv) > 5:
        e['why'] = sys.argv[5]
    d['findings'].append(e)
json.dump(d, open(P, 'w'), indent=1)
