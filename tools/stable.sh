#!/bin/bash
bash /opt/vp/build.sh >/tmp/st.b 2>&1 || { tail /tmp/st.b; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/st.t 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b
r=json.load(open('/tmp/o.json')); m=[t for t in b if t not in r['passed']]
print('tests: %d passed, baseline missing: %s'%(len(r['passed']),m[:5]))
P
