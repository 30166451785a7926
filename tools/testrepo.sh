#!/bin/bash
# builds /repo and compares its tests with the baseline
bash /opt/vp/build.sh || exit 1
bash /opt/vp/test.sh /tmp/verif-testout.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/verif-testout.json'))
def names(x): 
    if isinstance(x,dict):
        for k in ('passed','stable','tests'):
            if k in x: return set(x[k] if isinstance(x[k],list) else [n for n,v in x[k].items() if v in('pass','passed',True)])
    return set(x)
B,O=names(b),names(o)
m=sorted(B-O)
print(len(B),len(O),"missing:",len(m),m[:10])
P
