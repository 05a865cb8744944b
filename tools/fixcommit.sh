#!/bin/bash
# fixcommit.sh PROP "message": build, test and commit the working tree of /repo as a fix and record it
set -e
bash /opt/vp/build.sh >/tmp/fb.log 2>&1 || { tail -20 /tmp/fb.log; exit 1; }
bash /opt/vp/test.sh /tmp/ft.json >/tmp/ft.log 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/ft.json'))
print(t if len(str(t))<400 else str(t)[:400])
P
git -C /repo commit -qam "fix: $2"
h=$(git -C /repo log -1 --format=%h)
echo "fixed: property=$1 $h $2" >> /verif/known_findings.txt
git -C /repo status --short | head -3
echo "committed $h"
