#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claims below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'analysis')]
import props
TECH = props.TECH
checks = []
for p in sorted(props.CHECKS):
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': TECH[p][0], 'level': props.LEVEL[p], 'level_note': TECH[p][1]})
na = [{'property': k, 'reason': v} for k, v in sorted(props.NA.items()) if k not in props.CHECKS]
m = {'version': 1, 'setup_cmd': 'python3 engine/build.py', 'checks': checks, 'not_applicable': na}
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
assert sorted(ids) == sorted([c['property'] for c in checks] + [x['property'] for x in na]), 'manifest out of step'
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
