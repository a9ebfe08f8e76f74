#!/bin/bash
# run every claimed check at the quick tier and print the summary lines
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])")}; do
  python3 run.py $p quick | grep -v '^EVIDENCE' | tail -4
done
