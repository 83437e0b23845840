#!/bin/bash
# Pre-builds the harness (each check builds what it needs anyway).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet --manifest-path "$here/harness/Cargo.toml"
