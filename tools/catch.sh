#!/bin/bash
# catch.sh VERIFDIR CLONE ID...: runs the property's quick check (or $CHECK) against a clone of /repo with the bug applied.
V=$1; C=$2; shift 2
for ID in "$@"; do
  git -C $C checkout -q -- . && git -C $C apply /verif/seeded/$ID/patch.diff || { echo "$ID: does not apply"; continue; }
  P=${CHECK:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
  S=$(date +%s)
  VERIF_REPO=$C $V/run.sh check $P quick >/tmp/catch.$ID 2>&1; R=$?
  echo "$ID $P exit=$R $(( $(date +%s)-S ))s $(grep -m1 VIOLATION /tmp/catch.$ID) $(grep -m1 'note:' /tmp/catch.$ID)"
done
git -C $C checkout -q -- .
