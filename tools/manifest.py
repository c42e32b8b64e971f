#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claims below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ('TLA+/TLC: specification model-checked; specification-generated inputs replayed into the code; '
     'recorded outcomes validated against the specification')
CLAIMS = json.load(open(os.path.join(HERE, 'tools', 'claims.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    c = CLAIMS.get(i, {})
    if 'note' in c:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i,
                       'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': c.get('technique', T), 'level': c.get('level', 'model_checking'),
                       'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': c.get('reason', 'specification and conformance check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/selfcheck.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the drivers in harness/ call the public functions. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
