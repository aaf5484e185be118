#!/usr/bin/env python3
"""writes DESIGN.md from tools/design.md, known_findings.json, seeded/ and tools/seed_results.txt"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(f'{V}/known_findings.json'))
fixed = '\n'.join(f'* {x["property"]} `{x["commit"]}` {x["what"]}' for x in k if x['status'] == 'fixed')
known = '\n'.join(f'* {x["property"]} [{x["construct"]}] {x["what"]}' for x in k if x['status'] == 'known')
res = {}
for f in ('seed_results.txt',):
    if os.path.exists(f'{V}/tools/{f}'):
        for l in open(f'{V}/tools/{f}'):
            m = re.match(r'(MISS|    ) (\S+) (.*)', l)
            if m:
                res[m.group(2)] = 'missed' if m.group(1) == 'MISS' else 'caught by ' + ', '.join(re.findall(r'(C\d\d) rc=1', m.group(3)))
rows = ['| id | property | needs | what it breaks | result |', '|---|---|---|---|---|']
for d in sorted(glob.glob(f'{V}/seeded/*') + glob.glob(f'{V}/dev/planted/*')):
    i = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    rows.append(f'| {i} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} | {res.get(i, "not run")} |')
ref = open(f'{V}/tools/refactor_results.txt').read() if os.path.exists(f'{V}/tools/refactor_results.txt') else ''
t = open(f'{V}/tools/design.md').read()
for a, b in (('FIXED', fixed), ('KNOWN', known), ('SEEDS', '\n'.join(rows)), ('REFAC', ref)):
    t = t.replace('{{%s}}' % a, b)
open(f'{V}/DESIGN.md', 'w').write(t)
