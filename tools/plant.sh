#!/bin/bash
# plant.sh ID [CHECK.py]: apply seeded/ID to /repo, build, run tests, demo and check, then undo. Prints a one-line verdict.
id=$1; d=/verif/seeded/$id
cd /repo; git diff --quiet || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo BUILD0; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
chk=${2:-$(python3 -c "import json;print([c['quick_cmd'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='$prop'][0])" 2>/dev/null | sed 's/.*checks/checks/')}
lay=$(mktemp -d); cp -r $d/. $lay; rm -f $lay/*.diff $lay/meta.json
timeout 300 bash $lay/demo.sh >/tmp/plant.demo0 2>&1; d0=$?
git apply $d/patch.diff || { echo APPLY; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; rm -rf $lay' EXIT
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 && b=ok || b=BUILDFAIL
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
def names(x):
    for k in ('passed','stable','tests'):
        if k in x: return set(map(str,x[k]))
print(len(names(b)-set(map(str,r['passed']))))
P
)
timeout 300 bash $lay/demo.sh >/tmp/plant.demo1 2>&1; d1=$?
if [ -n "$chk" ]; then (cd /verif; timeout 900 python3 $chk >/tmp/plant.check 2>&1); c=$?; fi
echo "$id prop=$prop build=$b tests_missing=$t demo=$d0/$d1 check=$c $(grep -v '^property=\|^VIOLATION\|^KNOWN' /tmp/plant.check | head -${LINES_:-2} | cut -c1-300)"
