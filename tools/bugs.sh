#!/bin/bash
# bugs.sh [id...]: applies each planted bug to /repo, runs the check of its property, and undoes it
cd "$(dirname "$0")/.."
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
[ $# -gt 0 ] || set -- $(ls seeded)
for id; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || continue
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash -c "$(python3 - <<P
import json
for c in json.load(open('MANIFEST.json'))['checks']:
    if c.get('property', c.get('id')) == '$p': print(c['quick_cmd'] if 'quick_cmd' in c else c['quick'])
P
)" > /tmp/bug-$id.log 2>&1
  rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -m1 '^VIOLATION' /tmp/bug-$id.log | cut -c1-150)"
done
