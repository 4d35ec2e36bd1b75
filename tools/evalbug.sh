#!/bin/bash
# evalbug.sh ID [check]: confirms a planted bug (applies, builds, stable tests pass, demo 1 with / 0 without) and runs its check.
set -u
ID=$1; D=/verif/seeded/$ID; L=/tmp/evalbug; mkdir -p $L
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
trap 'git -C /repo checkout -q -- .' EXIT
if [ "${2:-}" != check ]; then
  (cd /repo && bash $D/demo.sh) >$L/$ID.demo0 2>&1; R0=$?
  git -C /repo apply $D/patch.diff || { echo "$ID: does not apply"; exit 2; }
  bash /opt/vp/test.sh $L/$ID.json >$L/$ID.test 2>&1
  T=$(python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
try: p=set(json.load(open('$L/$ID.json'))['passed'])
except Exception as e: p=set()
m=[x for x in b if x not in p]
print('tests-ok' if not m else 'TESTS-FAIL %d %s'%(len(m),m[:3]))
PY
)
  (cd /repo && bash $D/demo.sh) >$L/$ID.demo1 2>&1; R1=$?
  echo "$ID $P demo0=$R0 demo1=$R1 $T $(grep -c '^error' $L/$ID.demo1) compile-errors"
else
  git -C /repo apply $D/patch.diff || { echo "$ID: does not apply"; exit 2; }
fi
S=$(date +%s)
/verif/run.sh check $P quick >$L/$ID.check 2>&1; R=$?
echo "$ID $P check exit=$R $(( $(date +%s)-S ))s $(grep -m1 VIOLATION $L/$ID.check)"
