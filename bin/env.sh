# shared by setup and checks; sourced
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
NIGHTLY=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$NIGHTLY/lib
export MIRDUMP_RUSTC=$NIGHTLY/bin/rustc
