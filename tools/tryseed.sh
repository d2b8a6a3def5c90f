#!/bin/bash
# tryseed.sh ID : demo on the clean tree, then build/test/demo/check with the bug applied.
id=$1; root=$(cd "$(dirname "$0")/.." && pwd); d=$root/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
cd /repo
bash $d/demo.sh >/tmp/tryseed.out 2>&1; a=$?
git -C /repo apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/tryseed.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/tryseed.json >/dev/null 2>&1
t=$(python3 - <<P
import json
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tryseed.json'))
def names(x):
    for k in ('stable','passed','stable_tests','tests'):
        if k in x: return set(x[k])
    return set()
bn,rn=names(base),names(r)
print('ok' if bn and bn<=rn else 'FAIL %s'%sorted(bn-rn)[:3])
P
)
bash $d/demo.sh >/tmp/tryseed.out2 2>&1; c=$?
for p in ${2:-$prop}; do
(cd $root; bash run.sh $p > /tmp/tryseed.check 2>&1); e=$?
echo "$id prop=$p demo clean=$a patched=$c build=$b tests=$t check=$e $(grep -m1 VIOLATION /tmp/tryseed.check)"
done
git -C /repo checkout -q -- .
