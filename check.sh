#!/bin/bash
# check.sh <property id> [options]: rebuild the harness against /repo's working tree and run one check.
# exit 0: held; 1: VIOLATION line printed; anything else: the check itself failed.
cd "$(dirname "$0")" || exit 2
. ./env.sh
. ./build.sh || exit 2
VERIF_ROOT="$PWD" exec "$VERIF_BIN" check "$@"
