#!/bin/bash
# tools/plant.sh ID...  validate planted bugs in /repo (applied and undone) and run the property's check against them
cd /repo || exit 2
for id in "$@"; do
    d=/verif/seeded/$id
    [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
    bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "$id: clean build fails"; continue; }
    timeout 300 bash $d/demo.sh >/tmp/plant.demo0 2>&1; r0=$?
    git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.log 2>&1
    t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/plant.json'))
b=b['stable']
m=[x for x in b if x not in o['passed']];print(len(m),m[:3])")
    timeout 300 bash $d/demo.sh >/tmp/plant.demo1 2>&1; r1=$?
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    c=-; [ -n "$NOCHECK" ] || { python3-vt /verif/check.py $p >/tmp/plant.check 2>&1; c=$?; }
    git checkout -q -- .
    echo "$id [$p] demo clean $r0, tests broken: $t, demo patched $r1, check $c $(grep -h '^VIOLATION' /tmp/plant.check 2>/dev/null | head -1)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
