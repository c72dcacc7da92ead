#!/bin/bash
# u.sh PROP: verify all units whose contract names PROP (development helper)
cd /verif; p=$1; shift
keys=$(python3 - "$p" <<'P'
import sys,glob,re
p=sys.argv[1];out=[]
for f in sorted(glob.glob('/verif/contracts/*.vc')):
    pkg='';cur=None
    for l in open(f):
        l=l.split('//')[0].strip()
        if l.startswith('package '): pkg=l.split()[1]
        m=re.match(r'func ([\w.$@#]+)',l)
        if m: cur=pkg+'.'+m.group(1)
        if l.startswith('prop ') and cur and p in l.replace(',',' ').split(): out.append(cur)
        if l=='trusted' and cur in out: out.remove(cur)
        m=re.match(r'lemma \[([^\]]*)\] (\w+)',l)
        if m and p in m.group(1).split(): out.append('lemma.'+m.group(2))
print('\n'.join(out))
P
)
bin/govc unit -prop $p "$@" $keys
