#!/bin/bash
# usage: run.sh <property id> [quick|thorough]
# Builds the analyzer from /verif/analyzer and lets it decide one property from /repo's current source.
D=$(cd "$(dirname "$0")" && pwd)
ID=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
BIN=$D/bin/favecheck
if ! out=$(bash "$D/analyzer/build.sh" "$BIN" 2>&1); then
  echo "the analyzer does not build:"; echo "$out"; exit 2
fi
. /opt/vp/env.sh
export FAVE_VERIF=$D
exec "$BIN" -property "$ID" -tier "$VERIF_TIER"
