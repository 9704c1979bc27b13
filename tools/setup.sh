#!/bin/bash
# Builds the harnesses (the checks rebuild what changed).
cd "$(dirname "$0")/.." || exit 2
for h in core tx; do
  [ -d harness/$h ] || continue
  (cd harness/$h && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=../../target/$h cargo build --offline -q) || exit 1
done
