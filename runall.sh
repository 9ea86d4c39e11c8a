#!/bin/bash
# every quick check in turn (arguments: property ids)
cd "$(dirname "$0")"
for p in ${@:-$(python3 -c "import json; print(*[k for k in json.load(open('checks.json')) if k[0]=='C'])")}; do
  python3 check.py $p --tier ${TIER:-quick} > /tmp/run_$p.log 2>&1; r=$?
  echo "$p rc $r $(tail -1 /tmp/run_$p.log | cut -c1-200)"
done
