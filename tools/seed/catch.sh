#!/bin/bash
# catch.sh <id> [property...]: apply seeded/<id> to /repo, run the checks of the named properties (default: its own), undo
id=$1; shift
s=/verif/seeded/$id
P="$*"; [ -n "$P" ] || P=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
git -C /repo apply "$s/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for p in $P; do
  out=$(cd /verif && ./check.sh $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -E 'VIOLATION|violating' | head -2 | cut -c1-220 | tr '\n' ' ')"
done
