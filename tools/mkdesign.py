#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the properties, the claims, the rules and the planted bugs."""
import json, os, re, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + '/tools/mkmanifest.py').read(); ns = {}
ns['__file__'] = V + '/tools/mkmanifest.py'
m = json.load(open(V + '/MANIFEST.json'))
notes = {}
tree = ast.parse(src); env = {}
for n in tree.body:
    if isinstance(n, ast.Assign) and n.targets[0].id in ('AI', 'TB', 'CLAIMS', 'NA'): exec(compile(ast.Module([n], []), '', 'exec'), env)
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
seeds = {}
for d in sorted(os.listdir(V + '/seeded')):
    j = json.load(open('%s/seeded/%s/meta.json' % (V, d))); seeds.setdefault(j['property'], []).append((d, j))
def expl(i):
    t = ast.parse(open('%s/rules/%s.py' % (V, i.lower())).read())
    doc = ''
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'EXPL':
            try: doc = ast.literal_eval(n.value)
            except Exception: doc = ''
    if doc: return doc
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and getattr(n.func, 'attr', '') == 'finish' and len(n.args) > 1:
            try: return ast.literal_eval(n.args[1])
            except Exception: pass
    return ''
out = [open(V + '/tools/design_head.md').read(), '## Properties\n']
for p in props:
    i = p['id']; out.append('### %s %s\n' % (i, p['title']))
    if i in env['CLAIMS']:
        t, n = env['CLAIMS'][i]
        out.append('Method: %s\n' % t)
        e = expl(i)
        if e: out.append(e + '\n')
        out.append('Bounds and trust: %s\n' % n)
        for d, j in seeds.get(i, []): out.append('* planted `%s`: %s; needs %s.' % (d, j['what_it_breaks'].rstrip('.'), j['needs'].rstrip('.')))
        if seeds.get(i): out.append('')
    else: out.append('Not applicable: %s\n' % env['NA'].get(i, ''))
kf = [l.rstrip('\n') for l in open(V + '/known_findings.txt') if l[0] != '#' and l.strip()]
out.append('## Planted bugs\n\n%d bugs are kept in `seeded/`; each builds, passes the tests, and its demonstration fails with it only. Each is caught by the check of its\nproperty (`tools/seedtest.sh` repeats this). C02-half-attached, C15-stale-context and C20-lower-limit change lines of repairs made here, not of the original.\n' % sum(len(x) for x in seeds.values()))
out.append('## Genuine defects\n\n%d were repaired in /repo (one commit each), %d are recorded as known findings (`known_findings.txt`).\nThe recorded ones need a size argument the deprecated function does not have; a repair would change its interface.\n' % (sum(l.startswith('fixed') for l in kf), sum(l.startswith('finding') for l in kf)))
for l in kf: out.append('* ' + l.replace('fixed: property=', 'fixed ').replace('finding: property=', 'recorded '))
out.append('')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
