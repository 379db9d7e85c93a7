#!/bin/sh
# Builds the simulator against /repo's current working tree.
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR
export CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p /verif/target /verif/evidence /verif/replays
cd /verif/sim && cargo build --offline "$@" >/verif/target/build.log 2>&1 || { tail -60 /verif/target/build.log; exit 2; }
