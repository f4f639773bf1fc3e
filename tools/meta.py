#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run after editing it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
M = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Static analysis of the resolved syntax tree of /repo (libTooling exporter + Python analyses); see DESIGN.md. Known findings: known_findings.json.'}
for p in PROPS:
    if 'check' in p:
        M['checks'].append({'property': p['id'], 'quick_cmd': 'python3 checks/' + p['check'], 'thorough_cmd': 'python3 checks/' + p['check'],
            'technique': p['technique'], 'level': p.get('level', 'other'), 'level_note': p['note']})
    else: M['not_applicable'].append({'property': p['id'], 'reason': p['na']})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh: json.dump(M, fh, indent=1); fh.write('\n')
print(len(M['checks']), 'checks', len(M['not_applicable']), 'n/a')
