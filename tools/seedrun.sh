#!/bin/bash
# seedrun.sh ID...: applies each seeded change to /repo, runs the check of its property, undoes it.
for i in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: patch does not apply"; continue; }
  out=$(cd /verif && python3 check.py ${P:-$p} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i rc=$rc $(echo "$out" | grep VIOLATION | head -3)"
done
