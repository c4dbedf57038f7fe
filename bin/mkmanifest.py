#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in PLAN:
        na.append(dict(property=i, reason='not built yet'))
        continue
    c = PLAN[i]
    models, plans, traces = c.get('models', []), [m for m, _ in c.get('plans', [])], [t for t, _ in c['traces']]
    technique = ('executions of the implementation (scenarios: ' + ', '.join(traces) + ') validated step by step by TLC '
                 'against the TLA+ specification')
    if plans:
        technique += '; behaviours generated by TLC from ' + ', '.join(plans) + ' replayed in the implementation'
    if models:
        technique += '; bounded TLC model checking of ' + ', '.join(models)
    note = ('Every recorded execution is checked with exact equality of responses, states and decisions, and against '
            'the semantic conditions of the specification; its coverage is that of the seeded schedules.')
    if models or plans:
        note += ' The models are exhaustive within the bounds that DESIGN.md lists.'
    checks.append(dict(
        property=i, quick_cmd=f'python3 bin/check.py {i} quick', thorough_cmd=f'python3 bin/check.py {i} thorough',
        evidence_file=f'evidence/{i}.json', technique=technique, level='model_checking', level_note=note))
json.dump(dict(version=1, setup_cmd='python3 bin/setup.py', checks=checks, not_applicable=na,
               hooks=dict(guard='none', enable='the checks need no hooks in /repo', source_commits=[])),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
