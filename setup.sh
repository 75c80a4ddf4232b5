#!/bin/bash
# Builds both flavours of the simulator; the second is optional (see check.sh).
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
./build.sh || exit 1
timeout 900 ./build-race.sh || echo "note: the data-race flavour was not built"
