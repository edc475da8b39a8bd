#!/bin/bash
# try_seed.sh <seed> [property...]: applies a planted bug to /repo, runs the
# checks (by default the one of its property) and undoes it.
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
props=${*:-$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "seeded/$id/meta.json")}
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
  out=$(timeout 900 ./check.sh "$p" quick 2>&1); rc=$?
  echo "$id $p exit $rc $(grep -c '^VIOLATION' <<<"$out") violations"
  [ $rc -ne 0 ] && head -${LINES_SHOWN:-4} <<<"$out"
done
