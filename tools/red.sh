#!/bin/bash
cd "$(dirname "$0")/.."
# usage: red.sh C01 N : run, reduce first N
id=$1; n=${2:-10}; sc=${3:-0.05}
rm -rf replays/$id /tmp/red.*
VT_SCALE=$sc VT_DEBUG=1 timeout 600 python3 -m vt.${id,,} > /tmp/out.$id 2>&1
grep -c VIOL /tmp/out.$id; tail -1 /tmp/out.$id | cut -c1-600
grep -A3 REFREJ /tmp/out.$id | head -10
for i in $(ls replays/$id 2>/dev/null | head -$n); do (timeout 250 python3 -m vt.reduce replays/$id/$i > /tmp/red.$i 2>&1; [ $(wc -l < /tmp/red.$i) -lt 3 ] && cat replays/$id/$i/README >> /tmp/red.$i) & done; wait; for f in /tmp/red.*; do echo "== $f"; cat $f; done
