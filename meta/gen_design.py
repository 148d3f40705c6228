#!/usr/bin/env python3
"""Puts DESIGN.md together."""
import json,os,glob
here=os.path.dirname(os.path.abspath(__file__)); top=os.path.dirname(here)
rd=lambda n:open(os.path.join(here,n)).read().rstrip()+'\n'
caught=json.load(open(os.path.join(here,'caught.json'))) if os.path.exists(os.path.join(here,'caught.json')) else {}
rows=[]
for m in sorted(glob.glob(top+'/seeded/*/meta.json')):
    id=os.path.basename(os.path.dirname(m)); j=json.load(open(m))
    rows.append((j['property'],id,j['needs'],j['what_it_breaks'],', '.join(caught.get(id,['not run']))or 'none'))
rows.sort()
t='## Planted bugs\n\n| property | bug | needs | breaks | caught by |\n|---|---|---|---|---|\n'
t+=''.join('| %s |\n'%' | '.join(x.replace('|','\\|').replace('\n',' ') for x in r) for r in rows)
open(top+'/DESIGN.md','w').write(rd('design_head.md')+'\n'+rd('design_props.md')+'\n'+rd('design_tail.md')+'\n'+t)
