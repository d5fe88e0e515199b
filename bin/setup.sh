#!/bin/bash
# builds the MIR driver and the native feasibility test from the committed sources
set -e
. "$(dirname "$0")/env.sh"
mkdir -p "$VERIF/build" "$VERIF/evidence"
cd "$VERIF/driver"
cargo +nightly build --offline -q
gcc -O2 -shared -fPIC -o "$VERIF/build/simplex.so" "$VERIF/analyzer/simplex.c"
