#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md."""
import json,os,glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=here+'/DESIGN.md'; s=open(p).read()
head='| planted change | needs | breaks |\n|---|---|---|\n'
s=s[:s.index(head)]+head
for d in sorted(glob.glob(here+'/seeded/*/meta.json')):
    m=json.load(open(d))
    s+='| %s | %s | %s |\n'%(os.path.basename(os.path.dirname(d)),m['needs'],m['what_it_breaks'])
open(p,'w').write(s)
