#!/bin/bash
# runs the given checks in the quick tier one after another and prints how each ended
cd "$(dirname "$0")/.."
seed=${SEED:-1}; tier=${TIER:-quick}
for p in "$@"; do
  s=$(date +%s); VERIF_SEED=$seed VERIF_TIER=$tier python3 check.py $p > /tmp/out.$p 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s)-s ))s $(grep -c . /tmp/out.$p) lines"; grep -h -E 'VIOLATION|KNOWN' /tmp/out.$p | cut -c1-300 | tail -5
done
