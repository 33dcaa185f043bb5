#!/bin/bash
# builds the framework from the committed files (the checks build what is missing themselves)
V=$(cd "$(dirname "$0")/.." && pwd); mkdir -p "$V/.build"
(cd "$V/tools/vx" && CARGO_TARGET_DIR="$V/.build/vx" cargo build --offline -q) & A=$!
bash "$V/tools/oracle.sh" & C=$!
(cd "$V/replay" && CARGO_TARGET_DIR="$V/.build/replay" cargo build --offline -q) & D=$!
wait $A && wait $C && wait $D
