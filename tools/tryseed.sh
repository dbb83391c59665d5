#!/bin/bash
# tryseed.sh ID... : applies each seeded bug to /repo, runs the check of its property, undoes it
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C ${IPV_REPO:-/repo} apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && ./check.py $p 2>&1); rc=$?
  git -C ${IPV_REPO:-/repo} checkout -- .
  echo "== $id ($p) rc=$rc: $(echo "$out" | grep -c 'obligation not discharged') failed obligations shown; $(echo "$out" | grep VIOLATION)"
  [ -n "$V" ] && echo "$out" | tail -12
done
