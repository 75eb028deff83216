#!/bin/bash
# tools/fixed.sh ID: records the last commit of /repo as a repair of property ID.
h=$(git -C /repo log -1 --format='%h'); s=$(git -C /repo log -1 --format='%s')
case $s in fix:*) grep -q "$h" /verif/known_findings.txt || echo "fixed: property=$1 $h ${s#fix: }" >> /verif/known_findings.txt;; *) echo "not a fix"; exit 1;; esac
