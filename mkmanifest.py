"""Writes MANIFEST.json from plan.PLAN and properties.jsonl."""
import json

from vlib import plan

props = [json.loads(l) for l in open('properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    if i not in plan.PLAN:
        continue
    s = plan.PLAN[i]
    checks.append({
        'property': i,
        'quick_cmd': './check.py %s --tier quick' % i,
        'thorough_cmd': './check.py %s --tier thorough' % i,
        'technique': s['technique'],
        'level': 'exploration',
        'level_note': s['note']})
na = [{'property': p['id'], 'reason': 'check not built yet'} for p in props
      if p['id'] not in plan.PLAN]
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -m vlib.build',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: everything is observed at the public boundary (agent '
              'callbacks, supplied functions, public state).  known-findings.txt lists the '
              'recorded and the repaired defects.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
