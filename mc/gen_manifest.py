#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist."""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
notes = json.load(open(os.path.join(here, 'mc', 'notes.json')))
checks, na = [], []
for p in props:
    path = os.path.join(here, 'mc', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(path):
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    level = 'model_checking'
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'LEVEL':
            level = ast.literal_eval(node.value)
    n = notes[p['id']]
    checks.append(dict(property=p['id'], quick_cmd='./run.sh %s quick' % p['id'], thorough_cmd='./run.sh %s thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=n['technique'], level=level, level_note=n['note']))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks)
m['not_applicable'] = na
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
