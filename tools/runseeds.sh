#!/bin/bash
# Development helper: apply each planted change to /repo, run its property's check, undo.
# usage: runseeds.sh [id...]   (all when none is given)
cd /verif
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$i/patch.diff" || { echo "$i APPLY"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py "$p" quick > /tmp/seed.$i.out 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$r $(( $(date +%s)-s ))s $(grep -a VIOLATION /tmp/seed.$i.out | head -1)"
  w=missed; grep -aq VIOLATION /tmp/seed.$i.out && w="with a failing input"; grep -aq no-failing-input-found /tmp/seed.$i.out && w="obligation only"; sed -i "/^$i /d" tools/design/caught.txt; echo "$i $w" >> tools/design/caught.txt
done
