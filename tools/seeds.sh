#!/bin/bash
# run the check of each (or the named) planted change: tools/seeds.sh [id ...]
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  o=$(./check.sh $p); rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(echo "$o" | grep -E '^(VIOLATED|INCONC)' | awk '{print $1":"$2}' | tr '\n' ' ')"
done
