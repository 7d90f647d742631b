#!/usr/bin/env python3
"""Write MANIFEST.json: claims every property that has a check module."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NOTES = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        tech, note = NOTES[i]
        checks.append(dict(property=i,
            quick_cmd='VERIF_TIER=quick python3 check.py ' + i,
            thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
            technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet (work in progress)')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
    notes='TLA+ specifications in spec/, judged by TLC; see DESIGN.md')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
