#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./env.sh
. ./build.sh || exit 2
"$VERIF_BIN" list
