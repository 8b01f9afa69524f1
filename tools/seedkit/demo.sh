#!/bin/bash
# exit 0: the property holds in the scenario of main.rs; non-zero: it does not
. /opt/vp/env.sh 2>/dev/null
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
cp -r "$here/src" "$here/Cargo.toml" "$here/Cargo.lock" "$w/"
cd "$w" || exit 3
# a folder of its own: nothing an earlier build left can be taken for the current tree's
export CARGO_TARGET_DIR=$w/target CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
cargo build --offline --locked -q 2>"$w/build.log" || { tail -30 "$w/build.log"; exit 3; }
timeout 120 "$w/target/debug/demo"
