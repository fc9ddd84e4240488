#!/bin/bash
# runs the stable tests and prints which of them were lost
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json'))
print(len(t['passed']),sorted(set(b['stable'])-set(t['passed']))[:5])"
