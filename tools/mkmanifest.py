#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when props/cNN.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(V, 'tools', 'levels.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'props', i.lower() + '.py')) and i in NOTES:
        checks.append(dict(property=i, quick_cmd='./check.py %s quick' % i, thorough_cmd='./check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, level='model_checking',
                           technique='TLA+ model checking (TLC) with trace validation and replay of TLC behaviours', level_note=NOTES[i]))
    else:
        na.append(dict(property=i, reason='check under construction: the specification for this property is not bound to the code yet'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='Explicit TLA+ specification under spec/, checked with TLC; sessions recorded from /repo are judged by the Trace*.tla modules, and behaviours printed by the MC_*.tla models are replayed into the code. No hooks in /repo.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
