#!/bin/bash
# Usage: c21.sh quick|thorough|replay [file]: runs the checks of the back ends in all three builds.
cd "$VERIF_ROOT" || exit 2
TIER="$1"; FILE="$2"
export CARGO_NET_OFFLINE=true
AVX="-C target-feature=+sse2,+sse3,+avx,+avx2"
OLD=nightly-2023-04-01-x86_64-unknown-linux-gnu
parts="portable sse2"
grep -qw avx2 /proc/cpuinfo && parts="$parts avx2"
if [ "$TIER" = replay ] && [ -n "$FILE" ]; then
    for p in portable sse2 avx2; do grep -q -- "$p " "$FILE" && sel=$p; done
    case "$FILE" in *C21-portable-*) sel=portable ;; *C21-sse2-*) sel=sse2 ;; *C21-avx2-*) sel=avx2 ;; esac
    parts="$sel"
fi
one_build() {
    case "$1" in
    portable) tc=stable-x86_64-unknown-linux-gnu; feat=""; flags="" ;;
    sse2) tc=$OLD; feat="--features use_sse2"; flags="" ;;
    avx2) tc=$OLD; feat="--features use_avx2"; flags="$AVX" ;;
    esac
    (cd mc21 && RUSTFLAGS="$flags" cargo "+$tc" build --offline $feat --target-dir "$VERIF_ROOT/target/$1") >"target/build-C21.log.$1" 2>&1
}
pids=()
for p in $parts; do one_build "$p" & pids+=($!); done
for i in "${pids[@]}"; do
    if ! wait "$i"; then
        wait
        grep -E "^error" -A12 target/build-C21.log.* | head -60
        echo "the checker could not be built against /repo (see target/build-C21.log.*)"
        exit 2
    fi
done
[ "$TIER" = build ] && exit 0
code=0
for p in $parts; do
    MC_PART="-$p" "target/$p/debug/mc21" C21 "$TIER" $FILE
    c=$?
    [ $c -gt $code ] && code=$c
    [ $c -eq 1 ] && viol=1
    [ $c -gt 1 ] && bad=1
done
[ -n "$viol" ] && code=1
if [ "$TIER" != replay ] && [ -z "$bad" ]; then
    python3 tools/merge_evidence.py C21 $parts || { [ -n "$viol" ] || exit 2; }
fi
exit $code
