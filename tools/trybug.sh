#!/bin/bash
# trybug.sh ID [PROP...]: apply the planted bug to /repo, run the checks, undo
id=$1; shift
props="$@"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
for p in $props; do
  VF_VERBOSE=1 /opt/venv/bin/python /verif/harness/run.py $p quick > /tmp/trybug.out 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/trybug.out) $(grep '^kinds' /tmp/trybug.out | cut -c1-160)"
done
git -C /repo checkout -- .
