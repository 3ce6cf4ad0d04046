#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/seeded_notes.json."""
import json,glob,os,re
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
notes=json.load(open(here+'/seeded_notes.json'))
rows=['| change | property | caught by | shows up only with |','|---|---|---|---|']
for f in sorted(glob.glob(root+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(f)); m=json.load(open(f))
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],notes.get(i,m['property']),m['needs'].replace('|','/').replace('\n',' ')))
p=root+'/DESIGN.md'; s=open(p).read()
a,b='<!-- planted -->\n','<!-- /planted -->\n'
s=s[:s.index(a)+len(a)]+'\n'.join(rows)+'\n'+s[s.index(b):]
open(p,'w').write(s)
