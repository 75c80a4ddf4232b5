#!/bin/bash
# check.sh <property> <quick|thorough> [extra simulator options]
# Builds the simulator against /repo's working tree and searches schedules and faults for violations;
# then, for the properties that promise something to concurrent callers, searches again in the flavour
# that judges data races.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. ./env.sh
P=$1; TIER=${2:-quick}; shift 2
BIN=x86_64-unknown-linux-gnu/release/sim
log=$(mktemp)
if ! ./build.sh >"$log" 2>&1; then
  tail -60 "$log"; rm -f "$log"; echo "build failed"; exit 2
fi
"$CARGO_TARGET_DIR/$BIN" check --property "$P" --tier "$TIER" --seed "${VERIF_SEED:-1}" --root "$VROOT" "$@"
rc=$?
case "$TIER:$P" in
  quick:P02|quick:P03|quick:P04|quick:P07|quick:P08|quick:P12|thorough:*) ;;
  *) rm -f "$log"; exit $rc ;;
esac
[ $rc -eq 0 ] || { rm -f "$log"; exit $rc; }
# the flavour needs the nightly compiler and std's sources: where they cannot build this tree, what is above stands
if timeout 300 ./build-race.sh >"$log" 2>&1; then
  "$CARGO_TARGET_DIR/race/$BIN" check --property "$P" --tier "$TIER" --seed "${VERIF_SEED:-1}" --root "$VROOT" "$@"
  rc=$?
  [ $rc -le 1 ] || { echo "note: the data-race stage gave no answer"; rc=0; }
else
  tail -5 "$log"; echo "note: the data-race flavour was not built, its stage is left out"
fi
rm -f "$log"
exit $rc
