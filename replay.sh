#!/bin/bash
# usage: replay.sh FILE - run one recorded violation again; exit 1 if it reproduces exactly
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
bash "$here/build.sh" || exit 2
exec "$here/sim/target/release/sim" replay "$1"
