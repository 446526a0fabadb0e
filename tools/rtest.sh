#!/bin/bash
# run the repository's tests and compare with the baseline
bash /opt/vp/test.sh /tmp/rtest.json >/dev/null 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/rtest.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed'])
print("missing from stable:",len(m),sorted(m)[:10])
P
