#!/bin/bash
# runseed.sh: which checks catch which planted bugs (scratch copies are not possible here: the checks look at /repo)
cd /verif
for d in seeded/*/; do
  id=$(basename "$d")
  if [ $# -gt 0 ]; then case " $* " in *" $id "*) ;; *) continue;; esac; fi
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/$d/patch.diff" || continue
  timeout 900 python3 check.py "$p" > /tmp/runseed.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(grep -v ^VIOLATION /tmp/runseed.out | head -1 | cut -c1-220)"
done
