#!/usr/bin/env python3
"""Prints the generated tables of DESIGN.md: contracts per property, planted bugs."""
import re,glob,json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
by={p['id']:[] for p in props}
for f in sorted(glob.glob(root+'/contracts/*.go')):
    t=open(f).read()
    for m in re.finditer(r'//verif:contract (\S+) [^\n]*\n(//verif:bounded\n)?(?://verif:each \w+\n)?func (\w+)',t):
        for p in m[1].split(','):
            by[p].append(m[3]+(' (bounded)' if m[2] else ''))
print('| property | contracts (contracts/*.go) |\n|---|---|')
for p in props:
    print(f"| {p['id']} {p['title']} | {', '.join(by[p['id']])} |")
print()
print('| planted bug | breaks | needs |\n|---|---|---|')
for d in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(d))
    print(f"| {d.split('/')[-2]} | {m['property']} | {m['needs']} |")
