#!/bin/bash
# Build /repo (or $1) and report stable tests that fail.
bash /opt/vp/build.sh >/tmp/stable-build.log 2>&1 || { echo BUILD FAILED; tail -30 /tmp/stable-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/stable.json >/dev/null 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/stable.json'))['passed']
m=[t for t in b if t not in o]
print('stable ok' if not m else 'STABLE FAILING: %s'%m)
PY
