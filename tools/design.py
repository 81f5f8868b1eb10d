#!/usr/bin/env python3
"""tools/design.py : writes DESIGN.md from the texts below, the BOUNDS/ASSUMPTIONS of the checks, the list of findings and seeded/*/meta.json."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read()

# id: (how it is decided: encoded code + oracle, why tests cannot reach it / corrections)
P = {}
exec(open(os.path.join(V, 'tools', 'design_props.py')).read())

props = {}
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    props[d['id']] = d
man = json.load(open(os.path.join(V, 'MANIFEST.json')))
na = {d.get('property') or d.get('property_id') or d.get('id'): d.get('reason') for d in man.get('not_applicable', [])}
out = [HEAD, '\n## 3. The properties, one by one\n']
for k in sorted(props):
    out.append('### %s — %s\n' % (k, props[k]['title']))
    f = os.path.join(V, 'symbf', 'checks', k + '.py')
    if not os.path.exists(f):
        out.append('**Not applicable.** %s\n' % na.get(k, '(see MANIFEST.json)'))
        continue
    b = a = ''
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS'):
            v = eval(compile(ast.Expression(n.value), f, 'eval'))
            if n.targets[0].id == 'BOUNDS':
                b = v
            else:
                a = '; '.join(v)
    how, why = P.get(k, ('', ''))
    out.append(how.strip() + '\n')
    out.append('*Bounds:* ' + b + '.\n')
    if a:
        out.append('*Assumptions, outside the claim:* ' + a + '.\n')
    if why.strip():
        out.append('*Remarks:* ' + why.strip() + '\n')

out.append(open(os.path.join(V, 'tools', 'design_tail.md')).read())

kf = json.load(open(os.path.join(V, 'known-findings.json')))['findings']
out.append('\n## 6. Genuine defects found\n\n%d defects of the code were found by the checks (each with a replayed counterexample) and repaired, one `fix:` commit each:\n' % len(kf))
for f in sorted(kf, key=lambda f: f['property']):
    e = f['entry'].split(None, 3)
    out.append('- %s %s: %s' % (f['property'], e[2] if len(e) > 2 else '', f['what']))
out.append('\nNone is left open: known-findings.json lists `fixed:` entries only; they suppress nothing.\n')

out.append('\n## 7. Planted bugs\n\nWritten from the property and the code, confirmed with tools/tryseed.sh (applies, builds, stable tests pass, demo passes before and fails after), then checked (quick tier).\n\n| seed | property | what it breaks | needs | result |\n|---|---|---|---|---|')
res = {}
rf = os.path.join(V, 'tools', 'seed_results.txt')
if os.path.exists(rf):
    for l in open(rf):
        i, _, r = l.strip().partition(' ')
        res[i] = r
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    out.append('| %s | %s | %s | %s | %s |' % (i, d['property'], d['what_it_breaks'], d['needs'], res.get(i, '')))
extra = [i for i in res if not os.path.exists(os.path.join(V, 'seeded', i))]
if extra:
    out.append('\nTried and not kept (equivalent, found by the existing tests, or the line was one of my own): ' + '; '.join('%s (%s)' % (i, res[i]) for i in extra) + '.')
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
