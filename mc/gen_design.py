"""Writes DESIGN.md: the hand-written head (mc/design_head.md), then the per-property sections, the fixes and the planted bugs."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(V, *p)).read()
notes = json.loads(rd('mc', 'notes.json'))
props = [json.loads(l) for l in rd('properties.jsonl').splitlines() if l.strip()]
out = [rd('mc', 'design_head.md').rstrip() + '\n']
out.append('\n## The properties\n')
seeds = {}
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m)); seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
for p in props:
    i = p['id']
    t = ast.parse(rd('mc', 'checks', i.lower() + '.py'))
    v = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('LEVEL', 'BOUNDS', 'ASSUMPTIONS'):
            val = n.value
            if isinstance(val, ast.Call):
                v[n.targets[0].id] = {k.arg: ast.literal_eval(k.value) for k in val.keywords}
            else:
                v[n.targets[0].id] = ast.literal_eval(val)
    b = v.get('BOUNDS') or {}
    out.append('\n### %s. %s\n' % (i, p['title']))
    n = notes.get(i, {})
    out.append('* method: %s' % n.get('technique', ''))
    out.append('* bounds, quick: %s' % b.get('quick', ''))
    if b.get('thorough') not in (None, b.get('quick')): out.append('* bounds, thorough: %s' % b.get('thorough'))
    if v.get('ASSUMPTIONS'): out.append('* assumed or left open: ' + '; '.join(v['ASSUMPTIONS']))
    if n.get('note'): out.append('* ' + n['note'])
    if seeds.get(i): out.append('* planted bugs caught by this check: ' + ', '.join('`%s`' % s for s, _ in seeds[i]))
out.append('\n## Planted bugs (`seeded/`)\n\nEach is caught by the quick tier of the check of its own property.\n')
out.append('| id | property | needs |\n|---|---|---|')
for i in sorted(seeds):
    for s, d in seeds[i]: out.append('| %s | %s | %s |' % (s, i, d['needs'].replace('|', '/').replace('\n', ' ')))
out.append('\n## Defects found on the original tree, repaired in /repo\n\nOne `fix:` commit each; nothing is left as a known finding.\n')
for l in json.loads(rd('known_findings.json'))['fixed']: out.append('* ' + l[7:])
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
