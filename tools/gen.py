#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.props import PROPS, NA
from checks.registry import CHECKS

with open(ROOT + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NA:
        continue
    assert p['id'] in CHECKS, p['id']
    checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s' % p['id'], 'thorough_cmd': 'python3 run.py %s --thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'bash driver/build.sh build', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'Every check exports the MIR of the current /repo tree with a rustc driver (driver/) and decides its rules on it (sa/: abstract interpreter, checks/: rules).'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
miss = set(CHECKS) - set(p['id'] for p in PROPS)
if miss:
    print('checks without a property:', miss)
