#!/bin/bash
# usage: expand.sh REPO OUTDIR : writes OUTDIR/expanded.rs (rustc's own macro expansion of the crate)
. /opt/vp/env.sh 2>/dev/null
set -e
REPO=$1; OUT=$2
mkdir -p "$OUT"
cd "$REPO"
export RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR="${VERIF_EXPAND_TARGET:-$OUT/target-expand}"
# cargo would print nothing for an unchanged crate
rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/perf-event-data-*
cargo rustc --quiet --offline --lib --profile=check -- -Zunpretty=expanded > "$OUT/expanded.rs.tmp"
mv "$OUT/expanded.rs.tmp" "$OUT/expanded.rs"
