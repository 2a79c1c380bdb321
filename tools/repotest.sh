#!/bin/bash
# Build /repo, run its tests, say which stable ones do not pass.
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
st=set(b['stable'])
def names(x):
    return set(x) if isinstance(x,(list,dict)) else set()
ok=names(o.get('passed',o.get('pass',[])))
print(len(st), 'stable', 'missing:', sorted(st-ok), list(o)[:5])
P
