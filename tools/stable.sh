#!/bin/bash
# build /repo, run its tests, and print how many stable tests no longer pass
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
m=sorted(set(b['stable'])-set(o['passed'])); print(len(m), m[:10])"
