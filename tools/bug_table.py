#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(here+'/seeded')):
    m=json.load(open(f'{here}/seeded/{d}/meta.json'))
    rows.append('| %s | %s | %s |'%(d,m['property'],m['needs'].replace('|','\\|').replace('\n',' ')))
p=here+'/DESIGN.md'; s=open(p).read()
head='| bug | property | what it needs to show |\n|---|---|---|\n'
i=s.index(head)+len(head); j=s.index('### Mutation campaign',i)
s=s[:i]+'\n'.join(rows)+'\n\n'+s[j:]
open(p,'w').write(s)
