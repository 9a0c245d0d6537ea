#!/bin/bash
# Builds the checkers once; every check rebuilds what changed.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
mkdir -p evidence target
(cd mc && cargo build --offline --target-dir ../target/std) || exit 1
(cd mcx && cargo build --offline --target-dir ../target/std) || exit 1
(cd capi && cargo build --offline --target-dir ../target/std) || exit 1
(cd mc21 && cargo build --offline --no-default-features --target-dir ../target/nostd) || exit 1
export VERIF_ROOT="$PWD"
./tools/c21.sh build || exit 1
