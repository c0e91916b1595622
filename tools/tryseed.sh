#!/bin/bash
# tryseed.sh ID [harness regex]: run the check of the seeded bug's property against it, in place, then undo.
d=/verif/seeded/$1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 9
cd /verif; timeout 900 /opt/venv/bin/python check.py $p $2 > /tmp/try_$1.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "$1 $p rc=$rc $(grep -c ^violated /tmp/try_$1.out) $(grep -m1 ^violated /tmp/try_$1.out | cut -c1-160) $(tail -1 /tmp/try_$1.out)"
