#!/bin/bash
# Builds the command line tool of the crate in the current directory and runs demo.py with it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d /tmp/avdemo.XXXXXX)
trap 'rm -rf "$t"' EXIT
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true
cargo build -q --offline -p av-metrics-tool --manifest-path "$repo/Cargo.toml" || exit 3
cd "$t" && timeout 120 python3 "$here/demo.py" "$t/target/debug/av-metrics-tool"
