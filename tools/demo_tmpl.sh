#!/bin/bash
# Builds main.rs (beside this file) against the crates in the current directory's rust/ tree and runs it.
set -u
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
T=$(mktemp -d /tmp/xidemo.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$HERE"/*.rs "$T/src/"; cp "$HERE/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
serde = "1"
serde_json = "1"
serde_derive = "1"
xi-trace = { path = "$REPO/rust/trace" }
xi-rope = { path = "$REPO/rust/rope", features = ["serde"] }
xi-rpc = { path = "$REPO/rust/rpc" }
xi-core-lib = { path = "$REPO/rust/core-lib" }
xi-plugin-lib = { path = "$REPO/rust/plugin-lib" }
[profile.dev]
opt-level = 1
debug = false
X
cd "$T" && export CARGO_HOME=${CARGO_HOME:-/root/.cargo} CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true
cargo build --offline >"$T/log" 2>&1 || { tail -30 "$T/log"; echo "demo build failed"; exit 99; }
TMPDIR="$T" timeout 120 "$T/target/debug/demo"
