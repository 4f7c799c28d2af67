#!/bin/bash
# development aid: build one check in the checked profile only and run it
feat=""; case $1 in c15|c20) feat="--features compat";; esac
cd /verif/harness && RUSTUP_TOOLCHAIN=1.87.0 CARGO_TARGET_DIR=/verif/target cargo build -q --offline --profile checked $feat --bin $1 2>&1 | grep -E "^error" -A12 | head -50
b=$1; shift
/verif/target/checked/$b "$@"
