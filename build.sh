#!/bin/bash
# Builds the harness (and the library under test) from /repo's working tree.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=${NDL_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true
mkdir -p harness/target
if ! cargo build --offline --manifest-path harness/Cargo.toml --target-dir harness/target >harness/target/build.log 2>&1; then
    tail -n 60 harness/target/build.log >&2
    exit 2
fi
