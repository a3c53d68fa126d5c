#!/bin/bash
# tools/runall.sh TIER [SEED] [IDS...]: run checks one after another, one line each
cd "$(dirname "$0")/.." || exit 2
tier=${1:-quick}; seed=${2:-1}; shift; shift
ids=${*:-$(seq -f C%02g 1 23)}
for p in $ids; do
  t0=$(date +%s)
  out=$(VERIF_SEED=$seed bash check.sh "$p" "$tier" 2>&1); rc=$?
  echo "$tier seed=$seed $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -c KNOWN-FINDING <<<"$out") known"
  [ $rc -ne 0 ] && tail -4 <<<"$out"
done
