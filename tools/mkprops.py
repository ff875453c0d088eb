#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS, NOT_CLAIMED, HOOKS
from checks import CHECKS
with open(HERE + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    if p['id'] in CHECKS:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py check %s quick' % p['id'], 'thorough_cmd': 'python3 run.py check %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3 run.py build', 'checks': checks, 'not_applicable': NOT_CLAIMED}
if HOOKS:
    m['hooks'] = HOOKS
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
missing = set(CHECKS) - {p['id'] for p in PROPS}
unlisted = {p['id'] for p in PROPS} - set(CHECKS) - {n['property'] for n in NOT_CLAIMED}
print(len(PROPS), 'properties,', len(checks), 'checks', 'missing', missing, 'unlisted', unlisted)
