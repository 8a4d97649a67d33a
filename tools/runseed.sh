#!/bin/bash
# run the check of each planted bug against a patched copy of /repo: runseed.sh [ids...]
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/rs.XXXXXX); cp -a /repo/. $w; git -C $w apply /verif/seeded/$d/patch.diff || echo "APPLY FAILED $d"
  s=$(date +%s); PYDV_REPO=$w python3-vt check.py $p > $w.out 2>&1; rc=$?
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(grep -h VIOLATION $w.out | head -1)"
  rm -r "$w" "$w.out"
done
