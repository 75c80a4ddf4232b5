#!/bin/bash
# Builds the race flavour: everything, std included, with ThreadSanitizer's instrumentation and sim/c/race.c as its runtime.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
export DSIM_RACE=1 CARGO_PROFILE_RELEASE_OPT_LEVEL=1 CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_TARGET_DIR="$VROOT/build/race"
export RUSTFLAGS="-Ctarget-cpu=native -Zsanitizer=thread -Zexternal-clangrt -Cllvm-args=-tsan-distinguish-volatile=1 -Cllvm-args=-tsan-instrument-func-entry-exit=0"
cd sim && exec cargo +nightly build --locked --offline --release -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu "$@"
