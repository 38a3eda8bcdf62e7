#!/bin/bash
# try.sh ID [PROP...]: run the checks against a planted bug
id=$1; shift
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cd /repo && git apply /verif/seeded/$id/patch.diff || exit 1
for p in $props; do
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh $p quick > /tmp/plant/$id.$p.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -m1 -E '^(VIOLATION)' /tmp/plant/$id.$p.log) :: $(grep -m1 -vE '^(VIOLATION|property=)' /tmp/plant/$id.$p.log | cut -c1-150)"
done
git checkout -q -- .
