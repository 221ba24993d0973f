#!/bin/bash
# tools/tryseeds.sh [ID...]: run each seeded change's own check against it (in /repo, undone afterwards)
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply $PWD/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  t0=$(date +%s); python3 vp/run.py $p > /tmp/try_$d.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 'violated in' /tmp/try_$d.log | cut -c1-160) $(grep -m1 UNDECIDED /tmp/try_$d.log | cut -c1-200)"
done
