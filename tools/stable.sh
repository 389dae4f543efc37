#!/bin/bash
# Build /repo and check that every stable test still passes (development helper).
bash /opt/vp/build.sh > /tmp/stable_build.log 2>&1 || { grep -A8 '^error' /tmp/stable_build.log | head -40; exit 2; }
bash /opt/vp/test.sh /tmp/stable_out.json
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/stable_out.json'))
ok=set()
for k,v in o.items():
    if isinstance(v,dict):
        for t,r in v.items():
            if r in('passed','pass',True): ok.add(t)
    elif k in('passed','pass'): ok|=set(v)
miss=b-ok
print("missing stable:",len(miss),sorted(miss)[:10],"newly passing:",len(ok-b))
P
