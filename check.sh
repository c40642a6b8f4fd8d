#!/bin/bash
# check.sh ID [quick|thorough]: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
./build.sh || { echo "cannot build the analyser"; exit 2; }
exec timeout 800 bin/bipscheck -prop "$1" -tier "$VERIF_TIER" -repo "${BIPS_REPO:-/repo}" -out "${BIPS_OUT:-/verif/evidence}"
