#!/bin/bash
# mkplant.sh ID PROPERTY NEEDS BREAKS  (demo.cpp on stdin; the change is the current diff of /repo, which is undone)
d=/verif/seeded/$1; mkdir -p $d
R=${REPO:-/repo}; git -C $R diff > $d/patch.diff; git -C $R checkout -q -- .
[ -s $d/patch.diff ] || { echo "empty diff for $1"; exit 1; }
cat > $d/demo.cpp
cat > $d/demo.sh <<'S'
#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -r "$t"' EXIT
r=$PWD
g++ -std=c++14 -include cstdint -O1 -w -I"$r/include" -I"$r/src" "$d/demo.cpp" -o "$t/demo" -L"$r/_build" -lblackhole -lboost_system -lboost_thread -lpthread -Wl,-rpath,"$r/_build" || exit 3
cd "$t" && timeout 120 ./demo
S
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
