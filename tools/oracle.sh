#!/bin/bash
# type oracle: types and resolved names of every expression of /repo's library, from rustc itself
set -e
V=$(cd "$(dirname "$0")/.." && pwd); R=${1:-/repo}; OUT=${2:-$V/.build/oracle.jsonl}
mkdir -p "$V/.build"
(cd "$V/tools/oracle" && CARGO_TARGET_DIR="$V/.build/oracle" cargo +nightly build --offline -q 2>&1) | tail -5
rm -rf "$V"/.build/check/debug/.fingerprint/hyperborealib-*
rm -f "$OUT"
cd "$R"
LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib RUSTC_WORKSPACE_WRAPPER="$V/.build/oracle/debug/vx-oracle" VX_ORACLE_OUT="$OUT" \
  CARGO_TARGET_DIR="$V/.build/check" cargo +nightly check --offline --lib -q 2>"$V/.build/check.log" || { tail -20 "$V/.build/check.log"; exit 1; }
[ -s "$OUT" ]
