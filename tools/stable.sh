#!/bin/bash
# rebuild /repo and check that every stable test still passes
bash /opt/vp/build.sh >/tmp/vp_build.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/vp_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vp_o.json >/tmp/vp_test.log 2>&1
python3 - <<'P'
import json,sys
a=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); b=set(json.load(open('/tmp/vp_o.json'))['passed'])
m=a-b
print('stable missing:', sorted(m) if m else 'none', len(a))
sys.exit(bool(m))
P
