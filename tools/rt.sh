#!/bin/bash
# rebuild /repo and check the stable tests
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
m=[t for t in b['stable'] if t not in o['passed']]
print("passed",len(o['passed']),"missing stable:",m)
P
