#!/usr/bin/env python3
"""seed.py new ID < spec   (spec: python dict literal {property, needs, what_it_breaks, edits:[(file,old,new)], pkg, demo})
   seed.py try ID [PROP..] : validates a planted bug in a scratch copy and runs the property's check with the patch applied in /repo"""
import sys,os,subprocess,json,shutil,re
S='/verif/seeded'
DEMO='''#!/bin/bash
# Runs demo_test.go inside the package of /repo named on its first line.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
pkg=$(sed -n '1s,^// overlay: ,,p' "$d/demo_test.go")
o=$(mktemp); trap 'rm -f "$o"' EXIT
printf '{"Replace":{"%s":"%s"}}' "$PWD/$pkg/zz_seed_demo_test.go" "$d/demo_test.go" > "$o"
timeout 250 "$GO" test -vet=off -count=1 -overlay "$o" -run '^TestSeedDemo' "./$pkg"
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def new(i):
    sp=eval(sys.stdin.read()); i=sp.get('id',i)
    d=f'{S}/{i}'; os.makedirs(d,exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(),'repo dirty'
    try:
        for f,o,n in sp['edits']:
            p='/repo/'+f; s=open(p).read()
            assert s.count(o)==1,(f,o,s.count(o))
            open(p,'w').write(s.replace(o,n))
        open(d+'/patch.diff','w').write(subprocess.run('git -C /repo diff',shell=True,stdout=subprocess.PIPE,text=True).stdout)
    finally: sh('git -C /repo checkout -- .')
    open(d+'/demo_test.go','w').write('// overlay: '+sp['pkg']+'\n'+sp['demo'].lstrip())
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump({k:sp[k] for k in('property','needs','what_it_breaks')},open(d+'/meta.json','w'),indent=1)
    return i
def tryit(i,full=True):
    d=f'{S}/{i}'; prop=json.load(open(d+'/meta.json'))['property']
    r=[i,prop]
    try:
        a=sh(f'bash {d}/demo.sh',cwd='/repo'); r.append('demo-clean:%d'%a.returncode)
        if a.returncode: print(a.stdout[-1500:])
        x=sh(f'git -C /repo apply {d}/patch.diff'); assert x.returncode==0,x.stdout
        b=sh('bash /opt/vp/build.sh'); r.append('build:%d'%b.returncode)
        if b.returncode: print(b.stdout[-800:])
        a=sh(f'bash {d}/demo.sh',cwd='/repo'); r.append('demo-bug:%d'%a.returncode)
        if full:
            sh('bash /opt/vp/test.sh /tmp/seed_t.json')
            base=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed_t.json'))
            bl=base if isinstance(base,list) else base.get('stable') or base.get('passed') or base.get('tests')
            ps=set(t.get('passed',[])) if isinstance(t,dict) else set(t)
            bad=[z for z in bl if z not in ps]; r.append('tests-broken:%s'%bad[:3])
        c=sh(f'bin/govc check -prop {prop}',cwd='/verif'); r.append('check:%d'%c.returncode)
        v=[l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]; r.append(str(v[:1])[:200])
        open(f'/tmp/seedout_{i}.txt','w').write(c.stdout)
    finally: sh('git -C /repo checkout -- .'); 
    print(*r,flush=True)
if sys.argv[1]=='new': tryit(new(sys.argv[2]))
elif sys.argv[1]=='try':
    for i in (sys.argv[2:] or sorted(os.listdir(S))): tryit(i)
elif sys.argv[1]=='fast':
    for i in (sys.argv[2:] or sorted(os.listdir(S))): tryit(i,False)
