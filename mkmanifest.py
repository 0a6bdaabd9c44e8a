#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the check modules present in checks/."""
import ast, json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE = {}
exec(open(os.path.join(here, 'checks', 'notes.py')).read(), NOTE)
checks, na = [], []
for p in props:
  pid = p['id']
  if os.path.exists(os.path.join(here, 'checks', pid.lower() + '.py')):
    tech, note = NOTE['NOTES'][pid]
    checks.append(dict(property=pid, quick_cmd=f'VERIF_TIER=quick ./check {pid}', thorough_cmd=f'VERIF_TIER=thorough ./check {pid}', evidence_file=f'evidence/{pid}.json', technique=tech, level='model_checking', level_note=note))
  else:
    na.append(dict(property=pid, reason=NOTE['NA'].get(pid, 'check not built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na, notes='Every check: bounded exhaustive exploration of the real code in /repo (imported from the working tree, no build products), see DESIGN.md. Findings: known_findings.json. No hooks in /repo.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
