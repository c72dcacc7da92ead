#!/bin/bash
# Runs the executable oracle of each planted bug's property with the bug applied.
cd /verif
for d in ${@:-seeded/*/}; do id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])"); git -C /repo apply /verif/seeded/$id/patch.diff || continue; printf "%s " $id; timeout 300 bin/govc replay $p 2>&1 | grep -m1 "failing input"; git -C /repo checkout -q -- .; done
