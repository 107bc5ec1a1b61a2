#!/bin/bash
# tools/trial.sh ID...: run the check of each planted bug's property against it (applied to /repo and undone)
cd "$(dirname "$0")/.."
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || continue
  out=$(timeout 890 ./check.sh $prop 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $(echo "$out" | grep -c '^VIOLATION') violations; $(echo "$out" | grep '^VIOLATION' | grep -vc no-failing-input) with input; $(echo "$out" | tail -1 | cut -c1-120)"
done
