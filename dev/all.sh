#!/bin/bash
# run every claimed check once (development helper): results in /tmp/allchk.txt
cd /verif; : > /tmp/allchk.txt
for c in ${@:-$(python3 -c "import json;print(' '.join(x['property'] for x in json.load(open('MANIFEST.json'))['checks']))")}; do
 s=$(date +%s); timeout 800 bin/govc check -prop $c > /tmp/chk_$c.txt 2>&1; echo "$c rc=$? $(( $(date +%s)-s ))s known=$(grep -c KNOWN /tmp/chk_$c.txt)" >> /tmp/allchk.txt
done; echo done >> /tmp/allchk.txt
