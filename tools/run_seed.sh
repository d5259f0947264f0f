#!/bin/bash
# tools/run_seed.sh <seed id> [property...]: run checks with a planted change
cd /verif
id=$1; shift
props="$*"
[ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
  o=$(timeout 900 ./check $p 2>&1); r=$?
  echo "$id $p exit $r: $(echo "$o" | grep -A1 -m1 VIOLATION | tr '\n' ' ' | cut -c1-200) $(echo "$o" | grep -m1 "ERROR" | cut -c1-300)"
done
