#!/bin/bash
# try.sh ID...: run the quick check of each planted bug's property against
# /repo with the bug applied, and undo it.
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  prop=${CHECK:-$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo checkout -q -- . && git -C /repo apply $d/patch.diff || { echo "$id: NOAPPLY"; continue; }
  s=$(date +%s)
  cmd=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$prop': print(c['${TIER:-quick}_cmd'])" 2>/dev/null)
  (cd /verif && VERIF_SEED=1 VERIF_TIER=${TIER:-quick} timeout 900 bash -c "$cmd") > /tmp/try.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id: rc=$rc $(( $(date +%s) - s ))s $(grep -m2 VIOLATION /tmp/try.$id.log | tr '\n' ' ')"
done
