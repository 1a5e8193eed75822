#!/bin/bash
# tools/stable.sh: run the tests of /repo (or a tree shadowing it) and list stable ones that did not pass
bash /opt/vp/test.sh /tmp/stable-out.json >/tmp/stable.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/stable-out.json'))
p=set(o['passed']);m=[x for x in b if x not in p];print('stable',len(b),'missing',len(m));print('\n'.join(m[:20]))
PY
