#!/bin/bash
# builds the monitor in its three forms once, to show that everything needed is there; each check builds again from /repo's tree
cd "$(dirname "$0")/harness" && export CARGO_NET_OFFLINE=true || exit 1
CARGO_TARGET_DIR=../.build/target cargo build --release --offline || exit 1
CARGO_TARGET_DIR=../.build/plans RUSTFLAGS="--cfg rlibphonenumber_verif" cargo build --release --offline || exit 1
CARGO_TARGET_DIR=../.build/ops RUSTFLAGS="--cfg rlibphonenumber_verif --cfg rlibphonenumber_verif_ops" cargo build --release --offline
