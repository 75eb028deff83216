#!/bin/bash
# tools/fixc.sh ID "message": tests /repo's tree, commits it as a repair and records it.
cd /repo && bash /opt/vp/test.sh /tmp/o.json 2>&1 | grep -E 'error:|FAIL|passed' | tee /tmp/fixc.log
grep -q "244 passed, 0 failed" /tmp/fixc.log || { echo NOT COMMITTED; exit 1; }
git commit -qam "fix: $2" && bash /verif/tools/fixed.sh $1
