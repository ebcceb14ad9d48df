#!/usr/bin/env bash
# tools/catch.sh <seed id>... : run the seed's own check against /repo with the seed applied, then undo it.
for id in "$@"; do
  p=/verif/seeded/$id; prop=${PROP:-$(python3 -c "import json;print(json.load(open('$p/meta.json'))['property'])")}
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
  git -C /repo apply "$p/patch.diff" || continue
  timeout 900 python3 /verif/check.py "$prop" --tier="${TIER:-quick}" > /tmp/catch.$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " /tmp/catch.$id.log; then v=caught; else v=MISSED; fi
  echo "$id $prop rc=$rc $v $(grep -o '"what": "[^"]*"' /tmp/catch.$id.log | head -1) $(head -1 /tmp/catch.$id.log | cut -c1-120)"
done
