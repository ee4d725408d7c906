#!/bin/bash
# tools/tryplant.sh ID [check...]: verifies a planted bug against /repo (applied, built, tested, demonstrated, undone).
id=$1; shift; d=/verif/seeded/$id; out=/tmp/tryplant.$id; mkdir -p $out
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
if [ -z "$SKIP_CLEAN" ]; then bash /opt/vp/build.sh >$out/b0 2>&1; bash $d/demo.sh >$out/d0 2>&1; echo "$id clean demo: $? (want 0)"; fi
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh >$out/b1 2>&1; echo "$id build: $? (want 0)"
bash /opt/vp/test.sh $out/t.json >$out/t1 2>&1
python3 - $out/t.json <<'P'
import json,sys
o=json.load(open(sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'))
print("broken tests:", sorted(set(b['stable'])-set(o['passed'])))
P
bash $d/demo.sh >$out/d1 2>&1; echo "$id bug demo: $? (want != 0)"; tail -3 $out/d1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for c in ${*:-$p}; do cd /verif; timeout 900 ./run_check.py $c >$out/c.$c 2>&1; echo "check $c: $? (want 1)"; grep -m2 VIOLATION $out/c.$c; done
