#!/bin/bash
# verify.sh <id>...: check seeded/<id> in scratch copies: patch applies, stable tests pass with it, demo passes without and fails with it
. /opt/vp/env.sh
for id in "$@"; do
  s=/verif/seeded/$id
  W=/tmp/seedw/$id
  rm -rf "$W"; mkdir -p "$W"
  cp -a /repo "$W/repo"
  cd "$W/repo"
  export CARGO_TARGET_DIR=$W/repo/target
  if ! git apply "$s/patch.diff"; then echo "$id: patch does not apply"; continue; fi
  cargo test --workspace --exclude dess-examples-pyo3 --no-fail-fast --offline -- --test-threads 8 >"$W/test.log" 2>&1
  python3 /opt/vp/results.py "$W/out.json" "cargo:$W/test.log" >/dev/null 2>&1
  n=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('$W/out.json'))['passed']
print(','.join(x.split('::')[-1] for x in b if x not in o) or 'ok')")
  mkdir "$W/d"; cp "$s"/* "$W/d/"; rm -f "$W/d/patch.diff" "$W/d/meta.json"
  (bash "$W/d/demo.sh" >"$W/demo1.log" 2>&1); r1=$?
  git checkout -q -- .
  (bash "$W/d/demo.sh" >"$W/demo0.log" 2>&1); r0=$?
  echo "$id: tests failing: $n; demo unpatched $r0, patched $r1"
  [ "$n" = ok ] && [ $r0 = 0 ] && [ $r1 != 0 ] || { tail -n 5 "$W/test.log" "$W/demo0.log" "$W/demo1.log"; continue; }
  rm -rf "$W"
done
