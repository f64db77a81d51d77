#!/bin/bash
# seedcheck.sh ID [CHECK...]: validate one planted bug against /repo (applied and undone) and run checks on it.
id=$1; shift
S=/verif/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
log=/tmp/seedlog/$id; mkdir -p /tmp/seedlog
bash $S/demo.sh > $log.demo0 2>&1; d0=$?
git -C /repo apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > $log.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seedlog/$id.json > $log.test 2>&1
t=$(python3 - <<X
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedlog/$id.json'))
def names(x,k):
    v=x.get(k, []); return set(v if isinstance(v,list) else v.keys())
k='passed' if 'passed' in r else list(r)[0]
kb='stable'
print(len(names(b,kb)-names(r,k)), sorted(names(b,kb)-names(r,k))[:3])
X
)
bash $S/demo.sh > $log.demo1 2>&1; d1=$?
res=""
for c in ${@:-$P}; do
  ( cd /verif && VH_BUILD=/tmp/seedbuild timeout 900 ./check $c --tier quick > $log.$c 2>&1 ); res="$res $c=$?"
done
echo "$id property=$P demo_clean=$d0 build=$b missing_tests=[$t] demo_patched=$d1 checks:$res"
