#!/bin/bash
# developer helper: seeddetect.sh ID... : apply each planted change to /repo, run its property's check, undo
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  ./check.sh $p >/tmp/sd.$id 2>&1; r=$?
  git -C /repo checkout -- .
  echo "$id $p exit=$r $(grep -a '^VIOLATION' /tmp/sd.$id | head -1 | cut -c1-60) $(grep -a -A1 '^VIOLATION' /tmp/sd.$id | sed -n 2p | cut -c1-100) $(tail -1 /tmp/sd.$id | cut -c1-100)"
done
