#!/bin/bash
# run the repository's tests; report stable tests that do not pass
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(d):
    for k in ('passed','stable','stable_pass','tests'):
        if isinstance(d,dict) and k in d: return set(d[k])
    return set(d)
bn=names(b); on=names(o)
print(len(bn),'stable;',len(on),'passed; lost:',sorted(bn-on)[:20])
P
