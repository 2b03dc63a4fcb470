#!/bin/bash
# usage: check.sh ID [quick|thorough]   (run in /verif; builds the harness against /repo's working tree)
set -u
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=${NDL_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
./build.sh || exit 2
# (this one also runs on real threads)
if [ "$1" = C29 ]; then ./build-threads.sh || exit 2; fi
exec harness/target/debug/ndlcheck run "$1"
