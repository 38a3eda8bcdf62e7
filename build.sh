#!/bin/bash
# Build the simulator against /repo's working tree. Needs no network.
cd "$(dirname "$0")/sim" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
# one builder at a time
exec 9>.build.lock
flock 9
out=$(cargo build --release --offline 2>&1)
rc=$?
if [ $rc -ne 0 ]; then
  echo "$out" | grep -v '^warning' | tail -60 >&2
  echo "harness: build failed" >&2
  exit 2
fi
