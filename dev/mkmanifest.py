#!/usr/bin/env python3
# Generates MANIFEST.json from contracts (claimed properties) and the lists below.
import json,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
exec(open('/verif/dev/claims.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append({'property':i,'quick_cmd':f'bin/govc check -prop {i}','thorough_cmd':f'bin/govc check -prop {i} -tier thorough',
          'technique':TECH,'level':'proof','level_note':CLAIMED[i]})
    else:
        na.append({'property':i,'reason':NA.get(i,'Not claimed yet: the contracts for the functions behind it are not complete.')})
m={'version':1,'setup_cmd':'bash build.sh','checks':checks,'not_applicable':na,
 'notes':'Contracts are in contracts/*.vc, the verifier (govc) in tool/. The verified text is the go/ssa form of /repo built on every run. See DESIGN.md.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
