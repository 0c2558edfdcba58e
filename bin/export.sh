#!/bin/bash
# Build the MIR exporter if needed and export the current /repo source.
# usage: export.sh OUTDIR   (writes OUTDIR/lib.json and OUTDIR/models.json)
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${REPO:-/repo}"
OUT="$1"
mkdir -p "$OUT" "$V/build"
SYS="$(rustc +nightly --print sysroot)"
export LD_LIBRARY_PATH="$SYS/lib"
BIN="$V/build/mirx"
if [ ! -x "$BIN" ] || [ "$V/driver/main.rs" -nt "$BIN" ]; then
  T="$(mktemp -d "$V/build/drv.XXXXXX")"
  rustc +nightly -O "$V/driver/main.rs" -o "$T/mirx" --out-dir "$T" 2>"$T/err" || { cat "$T/err" >&2; exit 3; }
  mv "$T/mirx" "$BIN"
fi
MOD="$V/build/models.json"
if [ ! -s "$MOD" ] || [ "$V/models/lib.rs" -nt "$MOD" ] || [ "$BIN" -nt "$MOD" ]; then
  T="$(mktemp -d "$V/build/mod.XXXXXX")"
  MIRX_OUT="$T/models.json" MIRX_CRATE=models "$BIN" --crate-name models --crate-type lib --edition 2021 \
    --emit=metadata -Zmir-opt-level=0 --out-dir "$T" "$V/models/lib.rs" --sysroot "$SYS" 2>"$T/err" || { cat "$T/err" >&2; exit 3; }
  mv "$T/models.json" "$MOD"
fi
cp "$MOD" "$OUT/models.json"
TGT="$(mktemp -d "$OUT/target.XXXXXX")"
cd "$REPO"
if ! MIRX_OUT="$OUT/lib.json" MIRX_CRATE=tree_iterators_rs RUSTFLAGS="-Zmir-opt-level=0" RUSTC_WORKSPACE_WRAPPER="$BIN" \
  CARGO_TARGET_DIR="$TGT" cargo +nightly check --offline -p tree_iterators_rs ${FEATURES:+--features "$FEATURES"} >"$OUT/cargo.log" 2>&1; then
  cat "$OUT/cargo.log" >&2
  rm -rf "$TGT"
  exit 4
fi
rm -rf "$TGT"
[ -s "$OUT/lib.json" ]
