#!/bin/bash
# replay.sh <file>: re-executes a recorded violation exactly (same case, same schedule, same faults)
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. ./env.sh
BIN=x86_64-unknown-linux-gnu/release/sim
if grep -q '"flavour": "race"' "$1"; then
  ./build-race.sh >/dev/null 2>&1 || { echo "build failed"; exit 2; }
  exec "$CARGO_TARGET_DIR/race/$BIN" replay "$1"
fi
./build.sh >/dev/null 2>&1 || { echo "build failed"; exit 2; }
exec "$CARGO_TARGET_DIR/$BIN" replay "$1"
