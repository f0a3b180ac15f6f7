#!/bin/bash
# seedtest.sh DIR : build+test+demo+check with the planted bug in /repo, then undo
D=$(cd "$1" && pwd); P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 9; }
git apply "$D/patch.diff" || exit 8
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 && echo "build ok" || { echo BUILD FAILED; tail -5 /tmp/seed.log; }
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1; cat /tmp/seed.json | tr -d '\n'; echo
bash "$D/demo.sh" > /tmp/seed.demo 2>&1; echo "demo with bug rc=$?"; tail -3 /tmp/seed.demo
(cd /verif && BONVERIF_EVIDENCE=/tmp/seed.ev timeout 900 python3 engine/check.py $P | cut -c1-300 | tail -6; echo "check rc=${PIPESTATUS[0]}")
git checkout -- . ; bash /opt/vp/build.sh >/tmp/seed.log 2>&1
bash "$D/demo.sh" > /tmp/seed.demo 2>&1; echo "demo clean rc=$?"
rm -rf /tmp/seed.ev
