#!/bin/bash
# base.sh: run the repository's tests and compare with the baseline
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def s(d):
    for k in ('passed','pass','stable'):
        if k in d: return set(map(str,d[k]))
    return set()
print('missing:', sorted(s(b)-s(o))[:10], 'of', len(s(b)))
P
