#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        na.append(dict(property=p['id'], reason='its check is not built yet')); continue
    checks.append(dict(property=p['id'], quick_cmd='python3 run_check.py %s --tier quick' % p['id'], thorough_cmd='python3 run_check.py %s --tier thorough' % p['id'],
                       technique=c.get('technique', 'model checking: exhaustive enumeration of bounded operand, size and history spaces on the real code, every execution compared with a reference model'),
                       level='model_checking', level_note=c['note']))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='Every check builds /repo\'s working tree itself (run_check.py), explores with 8 workers, replays each suspect alone before reporting it. No hooks in /repo.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
