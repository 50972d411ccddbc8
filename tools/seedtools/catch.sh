#!/bin/bash
# catch.sh seeds... : run each seed's own property check on a patched copy of /repo
cd /verif
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  w=/tmp/catch/$s; mkdir -p $w; cp -a /repo $w/repo; git -C $w/repo checkout -q -- .
  git -C $w/repo apply /verif/seeded/$s/patch.diff || { echo "$s NOAPPLY"; continue; }
  cp -a /verif/evidence $w/ev 2>/dev/null
  out=$(timeout 900 bash check.sh $p -repo $w/repo 2>&1); rc=$?
  echo "$s $p rc=$rc $(echo "$out" | grep VIOLATION | cut -c1-140) | $(echo "$out" | tail -1 | cut -c1-160)"
  rm -rf "$w"
done
