#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness/chk_<id>.py is claimed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'levels.json')))
NA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'harness', 'chk_%s.py' % i.lower())):
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 check.py %s' % i,
                           thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=n.get('technique', 'TLA+ specification checked by TLC; recorded executions of the real code validated against it by TLC'),
                           level='model_checking', level_note=n['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='TLA+ with TLC. No hooks in /repo: the public API exposes the abstract state. See DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
