#!/bin/bash
# seedtest.sh id... : apply each seeded patch to /repo, run its check, undo
for id in "$@"; do
 d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo apply $d/patch.diff || { echo "$id APPLY FAIL"; continue; }
 out=$(cd /verif && VERIF_SEED=1 bash run.sh $p 2>&1); rc=$?
 git -C /repo checkout -- .
 echo "$id $p rc=$rc $(echo "$out" | grep -E 'VIOLATION' | tail -1)"
done
