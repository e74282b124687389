#!/bin/bash
# build_ir.sh CRATE: LLVM IR of one harness crate with /repo's current sources, as build/CRATE.ll.
# SX_FLAGS: more rustc flags, SX_BUILD: another build directory, SX_NAME: another name for the result.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
B=${SX_BUILD:-$HERE/build}
D=ir; cd "$HERE/harness"
if [ -d "$HERE/harness-async/$1" ]; then
    D=ir-async; cd "$HERE/harness-async"
    # tokio's own sources, under a path: a registry dependency would be patched too
    if [ ! -e "$HERE/build/tokio-real/Cargo.toml" ]; then
        rm -rf "$HERE/build/tokio-real"; mkdir -p "$HERE/build/tokio-real"
        tar xzf "${CARGO_HOME:-$HOME/.cargo}"/registry/cache/*/tokio-1.54.1.crate --strip-components=1 -C "$HERE/build/tokio-real"
    fi
fi
export CARGO_TARGET_DIR=$B/$D RUSTUP_TOOLCHAIN=stable
rm -rf "$B"/$D/sym/deps/$1-*.ll "$B"/$D/sym/.fingerprint/$1-*
RUSTFLAGS="--cfg symex ${SX_FLAGS}" cargo rustc --offline -p $1 --lib --profile sym --crate-type staticlib -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp
mv "$B"/$D/sym/deps/$1-*.ll "$B"/${SX_NAME:-$1}.ll
