#!/bin/bash
# Builds the harness crates and checks that the toolchain is there.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh 2>/dev/null
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
for c in harness service compat; do
  [ -f $c/Cargo.toml ] && { (cd $c && cargo build --offline --locked) || exit 1; }
done
java -version 2>&1 | head -1
