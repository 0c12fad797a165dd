#!/bin/bash
# Warm up: build every checker (the checks build what they need themselves).
cd "$(dirname "$0")" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:$PATH
for pkg in shell lang repl; do
  (cd mc/$pkg && CARGO_TARGET_DIR=$PWD/../../target/$pkg cargo build --offline --locked) || exit 1
done
