#!/bin/bash
# tryseed.sh ID : confirm demo passes without, fails with, build+tests pass with, and run the check
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
rm -rf /tmp/dm_$id; mkdir /tmp/dm_$id; cp $d/* /tmp/dm_$id/; rm -f /tmp/dm_$id/*.diff /tmp/dm_$id/meta.json
cd /repo; git diff --quiet || { echo DIRTY; exit 1; }
bash /tmp/dm_$id/demo.sh >/tmp/dm_$id/o1 2>&1; a=$?
git apply $d/patch.diff || exit 1
bash /tmp/dm_$id/demo.sh >/tmp/dm_$id/o2 2>&1; b=$?
bash /opt/vp/build.sh >/tmp/dm_$id/b 2>&1; c=$?
bash /opt/vp/test.sh /tmp/dm_$id/t.json >/tmp/dm_$id/t 2>&1
t=$(python3 - <<P
import json
r=json.load(open('/tmp/dm_$id/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print(str(r)[:0]+('ok' if 'fail' not in json.dumps(r).lower().replace('"failed": []','').replace('"failed": 0','') else 'CHECK '+json.dumps(r)[:300]))
P
)
cd /verif; for p in ${2:-$prop}; do python3 check.py $p >/tmp/dm_$id/c_$p 2>&1; k=$?; echo "$id $p: demo base=$a bug=$b build=$c tests=$t check=$k $(grep -E '^VIOLATION|NOT PROVED' /tmp/dm_$id/c_$p | head -2)"; done
git -C /repo checkout -- .
rm -rf /tmp/dm_$id/bin
