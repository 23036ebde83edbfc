#!/bin/bash
# run the check for each seeded bug against the patched /repo
cd /verif
for id in "$@"; do p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || continue
s=$(date +%s); python3-vt check.py $p --tier quick > /tmp/tb.$id.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$id rc=$rc $(grep -c ^VIOLATION /tmp/tb.$id.log) viol $(grep -c no-failing /tmp/tb.$id.log) nofail $(( $(date +%s)-s ))s"; done
