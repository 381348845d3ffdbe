#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and the property list."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'engine'))
from registry import REGISTRY, TECH, NOTE, NA

props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in REGISTRY:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': TECH.get(i, TECH['*']), 'level': 'other', 'level_note': NOTE.get(i, NOTE['*'])})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check registered yet')})
json.dump({'version': 1,
           'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'engine\'); import ir; ir.build_frontend()"',
           'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. check.py <id> analyses /repo\'s current source; exit 2 means no answer.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
