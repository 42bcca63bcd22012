#!/bin/bash
# stable tests of /repo all pass?
bash /opt/vp/test.sh /tmp/testok.json >/tmp/testok.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open('/tmp/testok.json'))['passed'])
m=[t for t in b if t not in o]
print("stable", len(b), "missing", m)
P
