#!/bin/bash
# extract.sh OUTDIR : (re)build the driver if needed and dump MIR facts of /repo's current tree into OUTDIR.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$1
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=$PATH:/root/.cargo/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR RUSTUP_TOOLCHAIN DOCS_RS
mkdir -p "$OUT"
( cd "$HERE/driver" && cargo +nightly build --offline -q )
DRV=$HERE/driver/target/debug/mirfacts
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export RUSTC_WORKSPACE_WRAPPER=$DRV
export MIRFACTS_OUT=$OUT
TD=$(mktemp -d /tmp/mirfacts.XXXXXX)
trap 'rm -rf "$TD"' EXIT
cd "$REPO"
( cargo +nightly check -p wolfram-parser --lib --offline --locked --target-dir "$TD/a" -q ) &
P=$!
mkdir -p "$OUT/wll"
( DOCS_RS=1 RUSTC=$HERE/driver/rustc-shim.sh MIRFACTS_OUT=$OUT/wll cargo +nightly check -p codeparser-wll --lib --offline --locked --target-dir "$TD/b" -q ) &
Q=$!
wait $P; wait $Q
