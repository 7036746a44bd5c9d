#!/bin/bash
# check.sh ID [quick|thorough] : rebuild from the current /repo tree and run one check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="${1:?property}"
tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}" VP_VERIF="$here"
"$here/build.sh" || { echo "ERROR: build failed" >&2; exit 4; }
exec "$here/build/target/debug/vpcheck" run "$id"
