#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for i in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/'+i+'/meta.json'))
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['what_it_breaks'].replace('|','/').rstrip('.'),m['needs'].replace('|','/').rstrip('.')))
t='| id | caught by | what it breaks | what it needs |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n'
p=V+'/DESIGN.md'; s=open(p).read()
b,e='<!-- planted bugs: tools/mkseeds.py -->\n','<!-- end of planted bugs -->\n'
s=s[:s.index(b)+len(b)]+t+s[s.index(e):]
open(p,'w').write(s); print(len(rows))
