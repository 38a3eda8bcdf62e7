#!/bin/bash
# usage: check.sh ID [quick|thorough]
#   exit 0: the property held on every simulated run
#   exit 1: VIOLATION line printed; 2: no answer (build or harness failure)
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
[ -n "$2" ] && export VERIF_TIER="$2"
bash "$here/build.sh" || exit 2
exec "$here/sim/target/release/sim" check "$1"
