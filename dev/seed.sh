#!/bin/bash
# seed.sh ID: demo on /repo as it is, then with the patch
S=/verif/seeded/$1; cd /repo || exit 2
[ -z "$(git status --short)" ] || { echo dirty; exit 2; }
bash $S/demo.sh > /tmp/seed.out 2>&1; a=$?; tail -2 /tmp/seed.out
git apply $S/patch.diff || exit 2
bash $S/demo.sh > /tmp/seed.out 2>&1; b=$?; tail -2 /tmp/seed.out
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
python3 /verif/run.py $P | grep -E "VIOLATION|^src|^OK|BROKEN" | cut -c1-200
git checkout -- .
echo "clean $a patched $b"
