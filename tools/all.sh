#!/bin/bash
# all.sh [quick|thorough] [property...]: runs checks one after another, one line each.
cd "$(dirname "$0")/.." || exit 2
tier=${1:-quick}; shift
for p in ${*:-$(cat tools/claimed.txt)}; do
  s=$(date +%s); out=$(./check.sh "$p" "$tier" 2>&1); rc=$?
  echo "$p seed ${VERIF_SEED:-1} exit $rc $(($(date +%s)-s)) s: $(tail -1 <<<"$out" | cut -c1-150)"
  [ $rc -ne 0 ] && head -6 <<<"$out" | cut -c1-400
done
