#!/usr/bin/env python3
# Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json,glob,os,re
AFTER={"D01-reseed-interval":"bursts of requests","K02-pub-pointer":"ring of re-imported key objects","K03-prv-pointer":"ring","X01-sm3-shared-output":"kept results","X01-p751-scratch":"twins"}
if os.path.exists('after.json'): AFTER.update(json.load(open('after.json')))
rows=["| id | needs | |","|---|---|---|"]
for d in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[1]
    n=re.sub(r'\s+',' ',m['needs']).replace('|','/')
    rows.append(f"| {i} | {n} | {'after: '+AFTER[i] if i in AFTER else ''} |")
s=open('DESIGN.md').read()
a='<!-- planted -->\n'; b='<!-- /planted -->\n'
t=a+'\n'.join(rows)+'\n'+b
if 'PLANTED_TABLE\n' in s: s=s.replace('PLANTED_TABLE\n',t)
else: s=re.sub(re.escape(a)+'.*?'+re.escape(b),lambda _:t,s,flags=re.S)
open('DESIGN.md','w').write(s)
