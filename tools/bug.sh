#!/bin/bash
# tools/bug.sh ID...: run the claimed check of planted bugs against /repo
for i in "$@"; do
d=/verif/seeded/$i
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || { echo "$i does not apply"; continue; }
VERIF_SEED=1 VERIF_TIER=quick python3 /verif/check.py $p > /tmp/bug.out 2>&1; r=$?
git -C /repo checkout -- .
echo "$i $p exit=$r $(tail -1 /tmp/bug.out | cut -c1-120)"
done
