#!/bin/bash
# Checks that the toolchain and the crates needed are present by building the harness once.
cd "$(dirname "$0")" || exit 1
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$PWD/target"
exec cargo build --offline --locked --release --manifest-path harness/Cargo.toml
