#!/bin/bash
# tools/try_seed.sh <seed id>...: confirm planted changes in a scratch copy of
# /repo: applies, builds, stable tests pass, demo fails with it, passes without.
. /opt/vp/env.sh
C=/tmp/seedcopy
[ -d $C ] || cp -a /repo $C
cd $C || exit 1
git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD
unchanged_built=0
for id in "$@"; do
  S=/verif/seeded/$id
  git checkout -q -f .
  cargo build "${FLAGS[@]}" >/tmp/seed.log 2>&1 || { echo "$id BASE BUILD FAILS"; continue; }
  bash $S/demo.sh >/tmp/seed-demo0.log 2>&1; r0=$?
  git apply $S/patch.diff || { echo "$id PATCH DOES NOT APPLY"; continue; }
  if ! { cargo build "${FLAGS[@]}" && cargo test --no-run "${FLAGS[@]}"; } >/tmp/seed.log 2>&1; then
    echo "$id DOES NOT BUILD"; grep -A6 "^error" /tmp/seed.log | head -20; git checkout -q -f .; continue
  fi
  cargo test --no-fail-fast "${FLAGS[@]}" -- --test-threads 8 >/tmp/seed-test.log 2>&1; rt=$?
  python3 /opt/vp/results.py /tmp/seed-out.json "cargo:/tmp/seed-test.log" >/dev/null
  missing=$(python3 -c "
import json
o=json.load(open('/tmp/seed-out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(' '.join(t for t in b['stable'] if t not in o['passed']))")
  bash $S/demo.sh >/tmp/seed-demo1.log 2>&1; r1=$?
  git checkout -q -f .
  if [ $r0 = 0 ] && [ $r1 != 0 ] && [ $r1 != 3 ] && [ -z "$missing" ]; then echo "$id OK (demo $r0 -> $r1)"; else
    echo "$id BAD demo $r0 -> $r1 failing tests: $missing"; head -5 /tmp/seed-demo0.log /tmp/seed-demo1.log
  fi
done
