#!/bin/bash
# Builds the simulator against /repo's current working tree.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
export RUSTFLAGS="-Ctarget-cpu=native -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
cd sim && exec cargo build --locked --offline --release --target x86_64-unknown-linux-gnu "$@"
