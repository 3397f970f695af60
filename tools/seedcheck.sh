#!/bin/bash
# seedcheck.sh [SEED...]: apply each seed to /repo, run the quick check of its property, undo
cd /verif
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is dirty"; exit 2; }
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  t=$(date +%s)
  r=$(timeout 900 ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$s rc=$rc $(( $(date +%s) - t ))s $(echo "$r" | grep -m1 VIOLATION)"
done
