#!/bin/bash
# run.sh PNN [tier] [engine arguments]: build the check of one property against /repo's working tree and run it
# run.sh PNN quick --replay FILE: the case of a replay file again, with the seed it was found with
# exit 0: held; 1 with a VIOLATION line: broken; anything else: the check itself failed
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$PWD; export VERIF_DIR
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
bin=$(echo "$id" | tr 'P' 'p')
log=$VERIF_DIR/target/build-$bin.log
mkdir -p target evidence replays
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never VERIF_SEED=${VERIF_SEED:-1} TARGET=$VERIF_DIR/target
if [ "$1" = --replay ]; then
    s=$(sed -n 's/^ *"seed": *\([0-9]*\).*/\1/p' "$2" | head -1); VERIF_SEED=${s:-$VERIF_SEED}
    t=$(sed -n 's/^ *"tier": *"\([a-z]*\)".*/\1/p' "$2" | head -1); tier=${t:-$tier}
fi
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR VH_SCALE
if [ "$tier" = thorough ]; then
    # more declarations, built apart from those of the quick tier
    export VH_SCALE=5 TARGET=$VERIF_DIR/target/thorough
fi
export VH_TARGET=$TARGET
if ! (cd harness && cargo +1.98.1 build --offline --locked --target-dir "$TARGET" --bin "$bin") >"$log" 2>&1; then
    tail -60 "$log"
    # the library builds, but refuses or cannot compile a declaration that it has to support
    python3 tools/refused.py "$id" "$log"
    [ $? = 3 ] && exit 1
    echo "$id: the check does not build against /repo"
    exit 2
fi
exec "$TARGET/debug/$bin" --tier "$tier" "$@"
