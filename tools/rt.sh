#!/bin/bash
# Rebuild /repo and run its tests, printing a summary
bash /opt/vp/build.sh >/tmp/rt-build.log 2>&1 || { tail -40 /tmp/rt-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt-out.json >/tmp/rt-test.log 2>&1
python3 - <<'PY'
import json
d=json.load(open('/tmp/rt-out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print("passed", len(d['passed']), "failed", d['failed'])
PY
cd /repo && git status --short | head
