#!/bin/bash
# Runs every registered check (quick) and prints one line each.
cd "$(dirname "$0")/.."
for c in ${@:-$(python3 -c "import json;print(' '.join(x['property'] for x in json.load(open('MANIFEST.json'))['checks']))")}; do
  s=$(date +%s); o=$(python3 run.py $c 2>&1); r=$?
  echo "$c rc=$r $(( $(date +%s)-s ))s $(echo "$o" | grep -E 'quick:|VIOLATION' | tr '\n' ' ' | cut -c1-200)"
done
