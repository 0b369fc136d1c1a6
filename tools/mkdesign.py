#!/usr/bin/env python3
# DESIGN.md = tools/design_head.md + table of seeded bugs (seeded/*/meta.json, tools/caught.json) + tools/design_tail.md
import json,os,glob
here=os.path.dirname(os.path.abspath(__file__))
c=json.load(open(here+'/caught.json'))
s=open(here+'/design_head.md').read()
s+='\n| seeded change | property | what it needs | outcome |\n|---|---|---|---|\n'
for d in sorted(glob.glob(here+'/../seeded/*/meta.json')):
    i=d.split('/')[-2]; m=json.load(open(d))
    s+='| %s | %s | %s | %s |\n'%(i,m['property'],m['needs'].replace('|','/'),c.get(i,'caught by '+m['property']))
s+='\n'+open(here+'/design_tail.md').read()
open(here+'/../DESIGN.md','w').write(s)
