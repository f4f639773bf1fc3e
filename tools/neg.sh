#!/bin/bash
# neg.sh DIFFNAME CHECK.py...: apply a behaviour-preserving edit, build, run the checks (all must exit 0), undo
n=$1; shift
cd /repo; git diff --quiet || { echo dirty; exit 2; }
git apply /verif/neg/$n.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/neg.log 2>&1 && b=ok || b=BUILDFAIL
for c in "$@"; do (cd /verif; timeout 900 python3 checks/$c > /tmp/neg.check 2>&1); echo "$n $c build=$b exit=$? $(grep -v '^property=\|^VIOL\|^KNOWN' /tmp/neg.check | head -3 | cut -c1-250)"; done
