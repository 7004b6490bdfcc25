#!/bin/bash
# fix.sh MESSAGE : build, run the stable tests, commit the working tree of /repo
cd /repo && bash /opt/vp/build.sh >/tmp/fix.out 2>&1 && bash /opt/vp/test.sh /tmp/fix.json >>/tmp/fix.out 2>&1
python3 - <<'P' || { tail -30 /tmp/fix.out; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/fix.json'))
m=[t for t in b['stable'] if t not in o['passed']]
print('missing',m); sys.exit(1 if m or o['failed'] else 0)
P

git commit -qam "$1" && git log --oneline | head -1
