#!/bin/bash
# build /repo, run its tests, print the counts
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json;o=json.load(open('/tmp/o.json'));print({k:len(v) for k,v in o.items() if isinstance(v,(list,dict))})"
