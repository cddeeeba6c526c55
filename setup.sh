#!/bin/bash
# build the monitors once (every check rebuilds what changed)
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/build.sh"
build_mon || { tail -n 40 "$log"; exit 1; }
"$mon" list | wc -l
