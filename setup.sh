#!/bin/bash
# build every check once, so that the checks only rebuild what changed
cd "$(dirname "$0")" || exit 2
mkdir -p target evidence replays
VERIF_DIR=$PWD; export VERIF_DIR
export CARGO_NET_OFFLINE=true VERIF_SEED=${VERIF_SEED:-1} VH_TARGET=$VERIF_DIR/target
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR VH_SCALE
(cd harness && cargo +1.98.1 build --offline --locked --target-dir "$VH_TARGET" --bins) || exit 1
target/debug/p23 --build || exit 1
target/debug/p26 --build
