#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seeded_results.txt (id|what the check said first)."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
said={}
for line in open(root+'/tools/seeded_results.txt'):
    p=line.rstrip('\n').split('|'); said[p[0]]=(p[1],p[2]=='later')
rows={}
for i in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(root+'/seeded/'+i+'/meta.json')); how,later=said.get(i,('not run',False))
    rows.setdefault(m['property'],[]).append('| %s | %s | %s%s |'%(i,m['needs'].replace('|','/').replace('\n',' '),how.replace('|','/'),' (only after the check was strengthened)' if later else ''))
out=['<!-- seeded -->','']
for p in sorted(rows): out+=['**%s**'%p,'','| change | needs | found by the sub-property |','|---|---|---|']+rows[p]+['']
s=open(root+'/DESIGN.md').read()
a=s.index('<!-- seeded -->'); b=s.index('<!-- end of seeded -->')
open(root+'/DESIGN.md','w').write(s[:a]+'\n'.join(out)+s[b:])
