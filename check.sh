#!/bin/bash
# ./check.sh <property id> [--replay FILE]
# Builds the property's check from /repo's working tree, in two settings (with and without
# debug assertions and overflow checks), and runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.87.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
# errors made and dropped per record must not each take a backtrace
export RUST_BACKTRACE=0
export CARGO_INCREMENTAL=0 RUSTFLAGS= RUSTC_WRAPPER= CARGO_TARGET_DIR="$PWD/target"
id="$1"; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
crate=harness
feat=""
case "$bin" in c15|c20) feat="--features compat";; esac
mkdir -p target
# the command-line programs: built from /repo with assertions and overflow checks, run in a scratch
# directory; their request to drop the machine's page cache is diverted
case "$bin" in c22|c23|c24|c25|c26|c27|c28|c31)
  (cd htools && cargo build -q --offline --profile checked --bin "$bin" --bin csv2bin --bin collect-stats --bin experimenter) >"target/build-$bin.log" 2>&1 &&
  gcc -shared -fPIC -O1 -o target/shim.so htools/shim.c -ldl 2>>"target/build-$bin.log" || {
    grep -hE '^error|error:' -A6 "target/build-$bin.log" | head -60
    echo "$id: the check does not build against /repo" >&2
    exit 2
  }
  export VERIF_SHIM="$PWD/target/shim.so" VERIF_SCRATCH
  VERIF_SCRATCH="$(mktemp -d "$PWD/target/scratch.XXXXXX")"
  trap 'rm -rf "$VERIF_SCRATCH"' EXIT
  LD_PRELOAD="$VERIF_SHIM" "target/checked/$bin" "$@"
  exit $?;;
esac
build() {
  (cd "$crate" && cargo build -q --offline --profile "$1" $feat --bin "$bin") >"target/build-$bin-$1.log" 2>&1
}
both() {
  build checked & a=$!
  build release & b=$!
  wait $a; ra=$?
  wait $b; rb=$?
  [ $ra -eq 0 ] && [ $rb -eq 0 ]
}
# c19 compiles internals of /repo on their own; where they no longer stand alone, its public part
if ! both && [ "$bin" = c19 ]; then bin=c19b; both; fi
if [ $ra -ne 0 ] || [ $rb -ne 0 ]; then
  grep -hE '^error' -A6 "target/build-$bin-checked.log" "target/build-$bin-release.log" | head -60
  echo "$id: the check does not build against /repo" >&2
  exit 2
fi
VERIF_EXE2="$PWD/target/release/$bin" exec "target/checked/$bin" "$@"
