#!/bin/bash
# seedcheck.sh [ID...]: applies each planted change to /repo, runs its property's check (or those in CHECKS), and undoes it.
cd /verif; [ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  for c in ${CHECKS:-$p}; do
    timeout 900 python3 check.py $c >/tmp/sc.log 2>&1; r=$?
    echo "$id $c: exit $r $(grep -m2 '^VIOLATION' /tmp/sc.log | tr '\n' ' ') $(tail -1 /tmp/sc.log)"
  done
  git -C /repo checkout -q -- .
done
