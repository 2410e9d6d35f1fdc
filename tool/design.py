#!/usr/bin/env python3
"""Fill the per-property and planted-bug sections of DESIGN.md from the rules and seeded/*."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = []
for d in props:
    if d['id'].startswith('N'):
        continue
    f = V + '/sa/rules/%s.py' % d['id'].lower()
    notes = ''
    if os.path.exists(f):
        doc = ast.get_docstring(ast.parse(open(f).read()))
        out.append('### %s %s\n\n%s\n' % (d['id'], d['title'], doc))
    else:
        out.append('### %s %s\n\nNo rule yet.\n' % (d['id'], d['title']))
seeds = ['| planted bug | property | caught by |', '|---|---|---|']
res = {}
if os.path.exists(V + '/seeded/results.json'):
    res = json.load(open(V + '/seeded/results.json'))
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    seeds.append('| %s: %s | %s | %s |' % (i, d['what_it_breaks'], d['property'], res.get(i, d['property'])))
t = open(V + '/DESIGN.md').read()
def fill(t, a, b, s):
    if '@%s@' % a in t:
        return t.replace('@%s@' % a, '<!-- %s -->\n%s\n<!-- end %s -->' % (a, s, a))
    return re.sub(r'<!-- %s -->.*?<!-- end %s -->' % (a, a), lambda m: '<!-- %s -->\n%s\n<!-- end %s -->' % (a, s, a), t, flags=re.S)
t = fill(t, 'PROPS', 0, '\n'.join(out))
t = fill(t, 'SEEDED', 0, '\n'.join(seeds))
open(V + '/DESIGN.md', 'w').write(t)
