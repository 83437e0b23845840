#!/bin/bash
# run.sh PROPERTY: rebuild the harness against /repo's working tree and run the property's check.
# run.sh --replay FILE: re-run one saved failing case.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here" CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
export RUSTFLAGS="" RUST_BACKTRACE=0
t0=$(date +%s.%N)
log=$(mktemp)
if ! cargo build --offline --quiet --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1; then
  tail -60 "$log" >&2
  rm -f "$log"
  echo "check error: the harness does not build against this tree" >&2
  exit 2
fi
rm -f "$log"
export VH_PRE_WALL=$(echo "$(date +%s.%N) - $t0" | bc 2>/dev/null || echo 0)
if [ "$1" = "--replay" ]; then exec "$CARGO_TARGET_DIR/debug/vh" replay "$2"; fi
exec "$CARGO_TARGET_DIR/debug/vh" run "$1"
