#!/bin/bash
# runseed.sh ID...: run the property's check with the planted bug applied
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id no apply"; continue; }
  s=$(date +%s); python3-vt check.py $p >/tmp/runseed.out 2>/tmp/runseed.err; rc=$?; e=$(date +%s)
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $((e-s))s: $(grep -a -E 'failing input|VIOLATION|bounded' /tmp/runseed.out | cut -c1-230 | tr '\n' ' ')"
done
