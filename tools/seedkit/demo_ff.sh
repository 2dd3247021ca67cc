#!/bin/bash
# Builds and runs the program beside this file against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d /tmp/avdemo.XXXXXX)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
av-metrics = { path = "$repo/av_metrics" }
av-metrics-decoders = { path = "$repo/av_metrics_decoders", features = ["y4m", "ffmpeg"] }
v_frame = "0.3.1"
rayon = "1.5"
[workspace]
[patch.crates-io]
av-metrics = { path = "$repo/av_metrics" }
T
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true
cargo build -q --offline --manifest-path "$t/Cargo.toml" || exit 3
timeout 60 "$t/target/debug/demo" "$t"
