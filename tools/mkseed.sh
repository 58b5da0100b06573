#!/bin/bash
# tools/mkseed.sh ID PROPERTY : confirms the uncommitted change in the scratch copy /tmp/seedwork/repo and stores it as seeded/ID
# expects /tmp/seedwork/demo.cpp, /tmp/seedwork/needs.txt and /tmp/seedwork/breaks.txt
set -e
ID=$1; PROP=$2; W=/tmp/seedwork; D=/verif/seeded/$ID
mkdir -p "$D"
git -C $W/repo diff > "$D/patch.diff"; [ -s "$D/patch.diff" ] || { echo "no change"; exit 1; }
cp $W/demo.cpp "$D/demo.cpp"
cp /verif/tools/seed/demo.sh "$D/demo.sh"
python3 - "$PROP" > "$D/meta.json" <<'P'
import json,sys
print(json.dumps({"property": sys.argv[1], "needs": open('/tmp/seedwork/needs.txt').read().strip(), "what_it_breaks": open('/tmp/seedwork/breaks.txt').read().strip()}, indent=1))
P
echo "stored $D"
