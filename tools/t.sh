#!/bin/bash
# run the repository's tests and compare with the baseline (development helper)
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'PY'
import json
o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
base=set(b.get('stable_pass',b.get('stable',b.get('passed',[]))))
print('passed',len(o['passed']),'failed',o['failed'],'missing from baseline',sorted(base-set(o['passed'])))
PY
