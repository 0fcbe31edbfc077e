#!/bin/sh
# Run the repository's stable tests and report those that no longer pass.
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/stable-out.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/stable-out.json'))
miss=sorted(set(b['stable'])-set(o['passed']))
print(len(b['stable']), 'stable;', len(miss), 'no longer pass', miss[:10])
P
