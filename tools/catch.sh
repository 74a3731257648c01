#!/bin/bash
# catch.sh [ID...]: apply each planted bug to /repo, run the quick check of its property, undo.
cd /verif
[ -z "$(git -C /repo status --short -uno)" ] || { echo "/repo is dirty"; exit 2; }
for d in seeded/${1:-*}/; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$id: does not apply"; continue; }
  timeout 900 ./run.sh $p ${TIER:-quick} > /tmp/catch.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  v=$(grep -c "^VIOLATION property=$p " /tmp/catch.out)
  echo "$id: rc=$rc violations=$v $(grep -m1 '^FAIL' /tmp/catch.out | cut -c1-160)"
done
