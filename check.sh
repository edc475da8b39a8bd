#!/bin/bash
# check.sh <property> [quick|thorough]   decides one property on /repo's working tree
# check.sh replay <dir>                  repeats a recorded violation
set -u
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$VERIF_ROOT/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
tier="${2:-${VERIF_TIER:-quick}}"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/vs.XXXXXX")" || exit 2
trap 'rm -rf "$scratch"' EXIT
export VS_SCRATCH="$scratch/work" VS_BUILD_JSON="$scratch/build.json"
if [ "$1" = replay ]; then replay="$(realpath "$2")" || exit 2; fi
cd "$VERIF_ROOT/harness" || exit 2
if ! cargo build --offline --locked --message-format=json >"$VS_BUILD_JSON" 2>"$scratch/err"; then
  cat "$scratch/err" >&2
  grep -o '"rendered":"[^"]*' "$VS_BUILD_JSON" | head -20 >&2
  echo "harness: build failed" >&2
  exit 2
fi
if [ "$1" = replay ]; then
  "$CARGO_TARGET_DIR/debug/driver" replay "$replay"
else
  "$CARGO_TARGET_DIR/debug/driver" check "$1" "$tier"
fi
