#!/bin/bash
# dev helper: run every claimed check
cd "$(dirname "$0")/.."
for i in ${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  VERIF_SEED=1 timeout 900 python3-vt run.py $i quick > /tmp/all.$i.log 2>&1; echo "$i rc=$? $(grep -vE '^VIOLATION' /tmp/all.$i.log | tail -1 | cut -c1-200) $(grep -E '^VIOLATION' /tmp/all.$i.log | head -1)"
done
