#!/bin/sh
# rebuild /repo and run its own tests
bash /opt/vp/build.sh >/tmp/rt.log 2>&1 || { tail -20 /tmp/rt.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/dev/null 2>&1
python3 -c "
import json;o=json.load(open('/tmp/rt.json'));print(len(o['passed']),'passed; failed:',o['failed'])"
