#!/bin/bash
# seedcheck.sh ID...: applies each planted bug to /repo, runs its property's quick check, and undoes it.
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  (cd /verif && VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3 check.py $p > /tmp/seedcheck.log 2>&1); c=$?
  git -C /repo checkout -- .
  echo "$id: $p exit=$c $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/seedcheck.log | cut -c1-160)"
  [ $c != 1 ] && tail -3 /tmp/seedcheck.log | cut -c1-300
done
