#!/bin/bash
# tools/tryseed.sh ID [property...] : demo on the clean tree, then patch, build, tests, demo, checks; restores /repo
D=/verif/seeded/$1; shift
P="$@"; [ -n "$P" ] || P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "/repo dirty"; exit 1; }
cd /repo; bash $D/demo.sh >/tmp/demo0.log 2>&1; echo "demo clean: $?"
git apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/build.log 2>&1; bash /opt/vp/test.sh /tmp/t.json >>/tmp/build.log 2>&1
python3 -c "
import json;d=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));print('tests', {k:len(v) for k,v in d.items()})"
bash $D/demo.sh >/tmp/demo1.log 2>&1; echo "demo patched: $?"; tail -2 /tmp/demo1.log
for p in $P; do (cd /verif && VERIF_SEED=1 bash check $p > /tmp/chk.log 2>&1; echo "check $p: $?"; grep -h "VIOLATION" /tmp/chk.log | head -5); done
git -C /repo checkout -- .
