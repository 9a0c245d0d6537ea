#!/bin/bash
# Usage: run.sh <property> quick|thorough|replay [file]
# Builds the checker against /repo's current working tree and runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
ID="$1"; TIER="${2:-quick}"; FILE="$3"
export VERIF_TIER="${VERIF_TIER:-$TIER}"
mkdir -p evidence target
log="target/build-$ID.log"
build() { # crate dir, target dir, toolchain, flags...
    local dir="$1" out="$2" tc="$3"; shift 3
    (cd "$dir" && cargo $tc build --offline --target-dir "$VERIF_ROOT/target/$out" "$@") >>"$log.$out" 2>&1
}
fail_build() {
    grep -E "^error" -A12 "$log".* | head -60
    echo "the checker could not be built against /repo (see $log.*)"
    exit 2
}
rm -f "$VERIF_ROOT/target/build-$ID.log".*
# A runaway allocation must end in an abort of the case, not in an out of memory kill
ulimit -v 20000000 2>/dev/null
ulimit -c 0
case "$ID" in
C19)
    build mcx std "" || fail_build
    exec target/std/debug/mcx "$ID" "$TIER" $FILE
    ;;
C20)
    build mcx std "" && build capi std "" || fail_build
    exec target/std/debug/mcx "$ID" "$TIER" $FILE
    ;;
C24)
    build mc21 nostd "" --no-default-features || fail_build
    exec target/nostd/debug/mc21 "$ID" "$TIER" $FILE
    ;;
C21)
    exec ./tools/c21.sh "$TIER" $FILE
    ;;
*)
    build mc std "" || fail_build
    exec target/std/debug/mc "$ID" "$TIER" $FILE
    ;;
esac
