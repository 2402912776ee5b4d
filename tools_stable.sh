#!/bin/bash
# runs the repository's own tests and reports which stable ones do not pass
bash /opt/vp/build.sh >/tmp/vb.log 2>&1 || { tail -30 /tmp/vb.log; exit 1; }
bash /opt/vp/test.sh /tmp/vt.json >/tmp/vt.log 2>&1
python3 -c "
import json
a=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);b=json.load(open('/tmp/vt.json'))
print('missing:',sorted(a-set(b['passed'])), 'failed:',b.get('failed'))"
