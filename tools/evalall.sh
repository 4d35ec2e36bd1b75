#!/bin/bash
# evalall.sh PATTERN..: runs each planted bug's own check on it and records in caught.json at which run it was caught.
cd "$(dirname "$0")/.."
for d in $(ls seeded); do
  for p in "${@:-*}"; do
    if [[ $d == $p ]]; then
      L=$(bash tools/evalbug.sh $d check); echo "$L"
      python3 - "$d" "$L" <<'PY'
import json, re, sys
f = "tools/caught.json"; c = json.load(open(f))
m = re.search(r"exit=1 .*replay=\S*-(\d+)\.json", sys.argv[2])
c[sys.argv[1]] = m.group(1) if m else "missed"
json.dump(dict(sorted(c.items())), open(f, "w"), indent=0)
PY
      break
    fi
  done
done
python3 tools/mktable.py
