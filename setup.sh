#!/bin/bash
# Builds the framework once, to show that it builds offline. Checks build what
# they need themselves.
set -eu
cd "$(dirname "$0")"
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
(cd harness && cargo build --offline --locked)
export CARGO_TARGET_DIR="$PWD/target/combos"
for s in std no-std; do
  for l in "" ,cgmath ,glam ,nalgebra ,cgmath,glam ,cgmath,nalgebra ,glam,nalgebra ,cgmath,glam,nalgebra; do
    (cd combos && cargo build -q --offline --locked --features "$s$l")
  done
done
export CARGO_TARGET_DIR="$PWD/target/metrics"
(cd harness && cargo build -q --lib --offline --locked --features debug-methods)
export CARGO_TARGET_DIR="$PWD/target/gpu"
(cd gpu && cargo build -q --offline --locked)
export CARGO_TARGET_DIR="$PWD/target/miri"
(cd miri && cargo +nightly miri run -q --offline --locked) || echo "miri is not usable here: C03 does without"
