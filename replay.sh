#!/bin/bash
# replay.sh <replay file>: run one saved case again
f=$(readlink -f "$1")
cd "$(dirname "$0")" || exit 2
. ./env.sh
. ./build.sh || exit 2
VERIF_ROOT="$PWD" exec "$VERIF_BIN" replay "$f"
