#!/bin/sh
# builds the two helper programs (each check builds what it needs again)
cd "$(dirname "$0")/.." || exit 1
for c in engine translator; do (cd $c && RUSTFLAGS=-Awarnings cargo build --release --offline -q) || exit 1; done
