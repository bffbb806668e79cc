#!/usr/bin/env python3
"""DESIGN.md = tools/design.md with the tables of fixes, findings and planted bugs filled in."""
import json,glob,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=open(R+'/tools/design.md').read()
k=open(R+'/known-findings.txt').read().splitlines()
fx=[re.match(r'fixed: property=(\S+) (\S+) (.*)',l).groups() for l in k if l.startswith('fixed:')]
kn=[re.match(r'known: property=(\S+) id=(\S+) (.*)',l).groups() for l in k if l.startswith('known:')]
t=t.replace('@FIXES@','| property | commit | what failed |\n|---|---|---|\n'+'\n'.join('| %s | %s | %s |'%x for x in fx))
t=t.replace('@KNOWN@','\n'.join('* **%s** (%s): %s'%(b,a,c) for a,b,c in kn))
ms=sorted((json.load(open(m)),os.path.basename(os.path.dirname(m))) for m in []) if 0 else sorted(((json.load(open(m)),os.path.basename(os.path.dirname(m))) for m in glob.glob(R+'/seeded/*/meta.json')),key=lambda x:(x[0]['property'],x[1]))
t=t.replace('@NPLANTS@',str(len(ms)))
t=t.replace('@PLANTS@','| property (caught by its check) | planted bug | needs | breaks |\n|---|---|---|---|\n'+'\n'.join('| %s | %s | %s | %s |'%(m['property'],i,m['needs'],m['what_it_breaks']) for m,i in ms))
open(R+'/DESIGN.md','w').write(t)
