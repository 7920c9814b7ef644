#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json; caught.json there names the checks that catch each."""
import json,glob,os,re
caught=json.load(open('/verif/tools/caught.json'))
rows=['| bug | property | what it breaks | caught by |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=d.split('/')[-2]; m=json.load(open(d))
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['what_it_breaks'].replace('|','/'),', '.join(caught.get(i,['?']))))
s=open('/verif/DESIGN.md').read()
a,b='<!-- seeded -->\n','<!-- /seeded -->\n'
if a not in s: s=s.replace('SEEDTABLE\n',a+b)
s=s[:s.index(a)+len(a)]+'\n'.join(rows)+'\n'+s[s.index(b):]
open('/verif/DESIGN.md','w').write(s)
