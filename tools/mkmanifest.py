#!/usr/bin/env python3
"""Writes MANIFEST.json from the scenario catalog (properties with scenarios and a rule are claimed)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from qlsa import ruletext

READY = ruletext.READY
NA = ruletext.NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q qlsa', 'checks': [], 'not_applicable': []}
for p in props:
    if p in READY:
        m['checks'].append({
            'property': p,
            'quick_cmd': 'python3 check.py %s --tier quick' % p,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
            'technique': ruletext.TECHNIQUE.get(p, ruletext.TECHNIQUE['']),
            'level': 'other',
            'level_note': ruletext.NOTE.get(p, ruletext.NOTE['']),
        })
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'check under construction')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
