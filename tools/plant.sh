#!/bin/bash
# plant.sh ID [noteststs]: confirm seeded/ID: applies, builds, passes the stable tests, the demo fails with it and passes without
d=/verif/seeded/$1; cd /repo || exit 1
git status --short | grep -v '^??' && { echo "dirty /repo"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
git apply --check $d/patch.diff || exit 1
git apply $d/patch.diff
bash /opt/vp/build.sh >/tmp/pb.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/pb.log; exit 1; }
t=0; timeout 300 bash $d/demo.sh >/tmp/pd.log 2>&1 || t=$?
echo "demo with patch: $t ($(tail -1 /tmp/pd.log | cut -c1-150))"
bash /opt/vp/test.sh /tmp/po.json >/tmp/pt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/po.json'))
def P(d):
    for k in ("passed","pass","stable"):
        if k in d: return set(d[k])
    return set(k for k,v in d.get("tests",d).items() if v in ("passed","pass",True))
B,O=P(b),P(o); print("tests failing:",len(B-O),sorted(B-O)[:5])
P
if [ "$2" != nocheck ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /verif && timeout 900 ./check.py $p 2>&1 | tail -3)
fi
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/pb.log 2>&1
t=0; timeout 300 bash $d/demo.sh >/tmp/pd.log 2>&1 || t=$?
echo "demo without patch: $t"
