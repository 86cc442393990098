#!/bin/bash
# Runs every check of the manifest (development only).
cd "$(dirname "$0")/.."
export VERIF_SEED=${VERIF_SEED:-1}
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  s=$SECONDS; python3 check.py $p ${1:-quick} > /tmp/all-$p.log 2>&1; echo "$p exit $? $((SECONDS-s))s $(grep -c KNOWN /tmp/all-$p.log) known"
done
