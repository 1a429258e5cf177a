#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, sys, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
	path = os.path.join(V, 'checks', p['id'].lower() + '.py')
	if os.path.exists(path):
		mod = ast.parse(open(path).read())
		vals = {t.id: n.value for n in mod.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
		tech = ast.literal_eval(vals['TECHNIQUE']) if 'TECHNIQUE' in vals else 'property-based testing: structured generation against a writer-side oracle, with shrinking'
		note = ast.literal_eval(vals['RULE'])
		checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s' % p['id'], 'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
			'technique': tech, 'level': 'exploration', 'level_note': 'Generated-input search over the real code; bounded by the generators and the number of cases in the evidence file. ' + note})
	else:
		na.append({'property': p['id'], 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 run.py --selfcheck', 'checks': checks, 'not_applicable': na, 'notes': 'No hooks in /repo: every check drives the public interfaces. run.py <id> [--tier thorough] [--replay FILE]; replay files go to /verif/replays.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
