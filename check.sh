#!/bin/bash
# check.sh <property> [quick|thorough]: build the monitors against /repo's working tree and run one check.
# exit 0 held, 1 violated (VIOLATION line), 2 inconclusive
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT="$here"
. "$here/build.sh"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
if ! build_mon; then
  echo "INCONCLUSIVE property=$id the harness does not build against /repo"
  tail -n 40 "$log"
  exit 2
fi
cd "$here"
exec "$mon" check "$id" "$tier"
