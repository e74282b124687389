#!/bin/bash
# Builds the symbolic executor (the checks build everything else from /repo's current tree).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
(cd engine && RUSTUP_TOOLCHAIN=stable cargo build --release --offline)
for c in proto fut traf atraf; do ./build_ir.sh $c; done
