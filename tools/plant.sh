#!/bin/bash
# tools/plant.sh ID PROPERTY [CHECK...]: turn the working-tree change of /repo into seeded/ID,
# confirm it (build, tests, demo fails / passes) and run the checks against it, then undo it.
id=$1 prop=$2; shift 2
d=/verif/seeded/$id; mkdir -p $d
[ -f $d/demo.sh ] || cp /verif/tools/demo/demo.sh $d/demo.sh
cd /repo
if [ -n "$(git status --short)" ]; then git diff > $d/patch.diff; else git apply $d/patch.diff || exit 1; fi
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/pb.log 2>&1 || { tail -20 /tmp/pb.log; echo "$id: BUILD FAILS"; exit 1; }
bash /opt/vp/test.sh /tmp/po.json >/tmp/pt.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/po.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('tests passed',len(o['passed']),'failed',o['failed'][:3])
P
bash $d/demo.sh >/tmp/pd.log 2>&1; r1=$?; tail -2 /tmp/pd.log | cut -c1-300
for c in $prop "$@"; do
  (cd /verif; timeout 900 ./run.sh $c quick 2>/dev/null | grep -E "VIOLATION|wall=" | cut -c1-300 | head -3; exit ${PIPESTATUS[0]}); echo "$id: check $c exit $?"
done
git -C /repo checkout -q -- .
bash $d/demo.sh >/tmp/pd2.log 2>&1; r2=$?; [ $r2 = 0 ] || tail -3 /tmp/pd2.log
echo "$id: demo with patch $r1, without $r2"
