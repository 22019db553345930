#!/bin/bash
# Runs every check's quick tier one after another: runall.sh [seed...]
cd "$(dirname "$0")" || exit 1
mkdir -p work evidence
for s in "${@:-1}"; do
  for i in $(seq 1 60); do
    p=$(printf C%02d "$i")
    grep -q "^prop(\"$p\"" plan.py || continue
    t=$(date +%s.%N)
    VERIF_SEED=$s python3 check.py "$p" > work/$p.$s.log 2>&1
    rc=$?
    echo "$p seed=$s rc=$rc $(echo "$(date +%s.%N)-$t" | bc) $(tail -1 work/$p.$s.log)"
    cp evidence/$p.json work/$p.$s.json
  done
done
