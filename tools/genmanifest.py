#!/usr/bin/env python3
"""Regenerates MANIFEST.json from plans.py and properties.jsonl."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import plans
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    pl = plans.PLANS.get(p['id'])
    if not pl:
        na.append(dict(property=p['id'], reason=plans.NOT_APPLICABLE.get(p['id'], 'check not built yet')))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 vrun.py %s quick' % p['id'], thorough_cmd='python3 vrun.py %s thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=pl['technique'], level=pl.get('level', 'exploration'), level_note=pl['note']))
m = dict(version=1, setup_cmd='python3 -m py_compile vrun.py plans.py && mkdir -p evidence build replays',
         checks=checks, not_applicable=na,
         notes='Every check rebuilds the library and its harness from /repo (object cache in /verif/build, keyed by content).')
if plans.HOOKS:
    m['hooks'] = plans.HOOKS
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
