#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: design_head.md + generated tables + design_tail.md."""
import json,glob,os,re,sys
sys.path.insert(0,os.path.dirname(__file__)); import claims
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
out=open(V+'/dev/design_head.md').read()
out+='\n## 4. Status per property\n\n| id | title | status | bounds and assumptions |\n|---|---|---|---|\n'
for p in props:
    i=p['id']
    if i in claims.CLAIMED: s,n='claimed (proof)',claims.CLAIMED[i].replace(claims.STD,'').strip() or '–'
    else: s,n='not applicable / not claimed',claims.NA.get(i,'')
    out+='| %s | %s | %s | %s |\n'%(i,p['title'],s,n)
out+='\nCommon to all: '+claims.STD.strip()+'\n'
# contracts
fn={};tr=[];ext={}
for f in sorted(glob.glob(V+'/contracts/*.vc')):
    pkg='';cur=None;kind=''
    for l in open(f):
        m=re.match(r'package (\S+)',l)
        if m: pkg=m.group(1)
        m=re.match(r'(func|lemma|extern|iface|functype) ([\w./$\[\]*-]+)',l)
        if m:
            kind,cur=m.group(1),m.group(2)
            if kind=='func': fn.setdefault(pkg,[]).append(cur)
            elif kind in('extern','iface','functype'): ext.setdefault(os.path.basename(f),[]).append(cur)
        elif cur and kind=='func' and l.strip()=='trusted': tr.append(pkg+'.'+cur)
out+='\n## 5. Functions under contract\n\n'
n=0
for p in sorted(fn):
    v=[x for x in fn[p] if p+'.'+x not in tr]; n+=len(v)
    if v: out+='* **%s** (%d): %s\n'%(p,len(v),', '.join(v))
out+='\n%d functions of /repo are verified against their contracts; the ones they call without a contract are inlined, so verified with each caller.\n'%n
out+='\nTrusted (contract assumed, body not verified): '+(', '.join(tr) or 'none')+'.\n'
out+='\nExternal, interface and function type contracts, by file: '+'; '.join('%s: %s'%(k,', '.join(sorted(set(v)))) for k,v in sorted(ext.items()))+'.\n'
out+='\n## 6. Planted bugs\n\nAll in `/verif/seeded`; each was confirmed (demonstration passes on the clean tree, fails with the change; the stable tests pass with it). "Caught" is the result of the property\'s quick check on the patched tree; "oracle" whether the replay finds a failing input.\n\n| bug | property | breaks | caught by |\n|---|---|---|---|\n'
res={}
if os.path.exists(V+'/dev/seed_results.json'): res=json.load(open(V+'/dev/seed_results.json'))
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[-2]
    out+='| %s | %s | %s | %s |\n'%(i,m['property'],m['what_it_breaks'].replace('|','/'),res.get(i,'check '+m['property']))
out+='\n## 7. Findings\n\nGenuine defects found by failed obligations (demonstrated on the real code); `fixed:` ones are repaired by `fix:` commits in /repo, `KNOWN-FINDING` ones recorded.\n\n'
for l in open(V+'/known-findings.txt'):
    if l.strip() and not l.startswith('#'): out+='* '+l.strip()+'\n'
out+='\n'+open(V+'/dev/design_tail.md').read()
open(V+'/DESIGN.md','w').write(out)
