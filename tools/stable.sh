#!/bin/bash
# runs the repository's tests on /repo and prints the stable ones that do not pass
set -u
bash /opt/vp/build.sh >/tmp/stable.$$.log 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/stable.$$.log; exit 1; }
bash /opt/vp/test.sh /tmp/stable.$$.json >/dev/null 2>&1
python3 - /tmp/stable.$$.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
bad=[t for t in b['stable'] if t not in o['passed']]
print('stable tests failing:',bad); sys.exit(1 if bad else 0)
P
rc=$?
rm -f /tmp/stable.$$.json /tmp/stable.$$.log
exit $rc
