#!/usr/bin/env python3
"""writes MANIFEST.json from py/props.py and properties.jsonl"""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/py')
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
checks = []
for i in ids:
    if i not in PROPS: continue
    c = PROPS[i]
    checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                   'technique': c.get('technique', 'static analysis: abstract interpretation into value graphs, cross-checked with the confirmed instance of every function'),
                   'level': c.get('level', 'other'), 'level_note': c.get('note', 'Every function that carries the property is interpreted abstractly (no execution, no solver) into a normal form of its outcome, result, final state and ordered effects; equality with the confirmed instance discharges it, and a difference is reported only when a model of the inputs separates the two value graphs.')})
na = [{'property': i, 'reason': NOT_APPLICABLE[i]} for i in ids if i not in PROPS]
json.dump({'version': 1, 'setup_cmd': './tools/build.sh', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
