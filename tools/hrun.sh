#!/bin/bash
# hrun.sh Hnn [seconds [seed]]: the bounded search of one property on its own
. /opt/vp/env.sh
cd /verif && eval "$(python3-vt - <<'P'
import sys; sys.argv=["x"]
sys.path.insert(0,"bin")
import check
e=check.env()
for k in ("JYTHONPATH","LANG","LC_ALL","JAVA_TOOL_OPTIONS","PYTHONDONTWRITEBYTECODE"):
    if k in e: print("export %s='%s'"%(k,e[k]))
P
)"
cd /tmp && /usr/bin/jython -Dpython.cachedir.skip=true -B /verif/harness/hlib.py $1 search /tmp/hrun.$1.json ${3:-1} 200000 ${2:-30} quick > /tmp/hrun.$1.log 2>&1; tail -c 600 /tmp/hrun.$1.log; python3 -c "
import json;d=json.load(open('/tmp/hrun.$1.json'));print(d['failure'],d['evaluations'],d['distinct'],d['wall'],d['known'])" | cut -c1-1500
