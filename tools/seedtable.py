#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded/results.txt (lines "<id> <check> caught|missed")"""
import json, glob, os, re
D = '/verif/'
res = {}
if os.path.exists(D + 'tools/seed_results.txt'):
    for l in open(D + 'tools/seed_results.txt'):
        a = l.split()
        if len(a) == 3: res[(a[0])] = (a[1], a[2])
rows = ['| planted bug | property | what it breaks | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(D + 'seeded/*/meta.json')):
    i = m.split('/')[-2]; d = json.load(open(m)); c, r = res.get(i, (d['property'], '?'))
    rows.append('| %s | %s | %s | %s |' % (i, d['property'], d['what_it_breaks'], c + (' (quick)' if r == 'caught' else ': ' + r)))
t = open(D + 'DESIGN.md').read()
b, e = '<!-- seeds -->', '<!-- /seeds -->'
new = b + '\n' + '\n'.join(rows) + '\n' + e
t = t.replace('SEEDTABLE', new) if 'SEEDTABLE' in t else re.sub(re.escape(b) + '.*?' + re.escape(e), lambda _: new, t, flags=re.S)
open(D + 'DESIGN.md', 'w').write(t)
