#!/bin/bash
# dev helper: rebuild repo + run baseline tests
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/t.json'))['passed']
print('missing', set(b)-set(t))"
