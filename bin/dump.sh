#!/bin/bash
# dump.sh OUT CONFIG FEATURES: MIR of the specification programs and of everything they reach
# CONFIG: dev | release | simd
. "$(dirname "$0")/env.sh"
mkdir -p "$VERIF/build"
out=$1 config=$2 features=$3
rel="" flags="-Zalways-encode-mir -Zmir-opt-level=0"
case $config in
    release) rel=--release ;;
    simd) flags="$flags -Ctarget-feature=+ssse3,+sse4.1" ;;
esac
export CARGO_TARGET_DIR=$VERIF/build/target-$config
export MIRDUMP_OUT=$out MIRDUMP_CRATE=harness RUSTC_WORKSPACE_WRAPPER=$VERIF/driver/target/debug/mirdump
export RUSTFLAGS=$flags CARGO_TERM_COLOR=never
cd "$VERIF/harness"
cargo +nightly clean --offline $rel -p succinct_neo -p harness >/dev/null 2>&1
exec cargo +nightly build --offline $rel --features "$features"
