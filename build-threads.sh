#!/bin/bash
# Builds the driver of the multi-threaded scripts from /repo's working tree: with the thread sanitizer, and for Miri.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
NIGHTLY=${NDL_NIGHTLY:-nightly-x86_64-unknown-linux-gnu}
T=${NDL_THREADS:-$PWD/threads/target}
mkdir -p "$T"
fail() { tail -n 60 "$T/$1.log" >&2; exit 2; }
tsan() {
    RUSTFLAGS="-Zsanitizer=thread" RUSTUP_TOOLCHAIN=$NIGHTLY cargo build --offline -Zbuild-std --target x86_64-unknown-linux-gnu \
        --manifest-path threads/Cargo.toml --target-dir "$T/tsan" >"$T/tsan.log" 2>&1
}
miri() {
    # (running it once without any script builds it)
    MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-ignore-leaks" RUSTUP_TOOLCHAIN=$NIGHTLY cargo miri run --offline \
        --manifest-path threads/Cargo.toml --target-dir "$T/miri" -- 1 >"$T/miri.log" 2>&1
}
tsan & p=$!
miri || fail miri
wait $p || fail tsan
sysroot=$(RUSTUP_TOOLCHAIN=$NIGHTLY cargo miri setup --print-sysroot 2>>"$T/miri.log") || fail miri
{
    echo "$(RUSTUP_TOOLCHAIN=$NIGHTLY rustc --print sysroot)/bin/cargo-miri"
    echo "MIRI_SYSROOT=$sysroot"
    echo "RUSTUP_TOOLCHAIN=$NIGHTLY"
} >"$T/miri.cmd"
