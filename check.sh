#!/bin/bash
# check.sh <property> [quick|thorough] [--replay FILE]
# Builds the check of one property against /repo's current working tree and runs it.
# exit 0: held on everything explored; 1: VIOLATION; anything else: the check could not answer.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export VERIF_ROOT="$PWD"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
case "$tier" in quick) limit=840 ;; *) limit=14000 ;; esac
# build configurations a property is explored under (first one rewrites the evidence, others add)
case "$id" in
    C06|C09|C11|C12|C13|C14|C22|C25) runs="release checked" ;;
    C24) runs="checked" ;;
    C19) runs="release parallel" ;;
    *) runs="release" ;;
esac
merge=0; rc=0
for run in $runs; do
    feat=""; prof="$run"; tdir="target"
    if [ "$run" = parallel ]; then feat="--features parallel"; prof=release; tdir="target/par"; fi
    extra=""; [ "$id" = C23 ] && extra="-p harness -p lambdaworks-stark --bin lambdaworks-stark"
    log="target/build-$id-$run.log"; mkdir -p target work/replay
    if ! cargo build --offline --locked --quiet --manifest-path harness/Cargo.toml --target-dir "$tdir" \
            --profile "$prof" --bin "$bin" $extra $feat >"$log" 2>&1; then
        echo "BUILD FAILED ($id, $run)"; grep -E "^error" -A6 "$log" | head -60
        exit 3
    fi
    VERIF_CONFIG="$run" VERIF_MERGE=$merge timeout -k 5 "$limit" "$tdir/$prof/$bin" "$tier" "$@"
    r=$?
    if [ "$r" = 1 ]; then rc=1; elif [ "$r" != 0 ] && [ "$rc" = 0 ]; then echo "check ended with $r"; rc=3; fi
    merge=1
done
exit $rc
