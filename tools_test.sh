#!/bin/bash
# stable tests of /repo: prints passed/failed and which stable ones are missing
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/build.log; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
m=set(b['stable'])-set(o['passed'])
print(len(o['passed']),len(o['failed']),"missing stable:",len(m),list(m)[:5])
P
