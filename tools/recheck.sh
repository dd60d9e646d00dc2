#!/bin/bash
# recheck.sh ID... : apply each seeded patch to a scratch copy of /repo and run the check of its property against it
. /opt/vp/env.sh
for id in "$@"; do
  d=$(mktemp -d /tmp/recheck.XXXX); cp -a /repo "$d/repo"
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  if git -C "$d/repo" apply "/verif/seeded/$id/patch.diff"; then
    MC_REPO="$d/repo" MC_NO_EVIDENCE=1 PYTHONPATH="$d/repo" timeout 900 /verif/check.sh "$prop" quick > "$d/out" 2>&1; rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop" "$d/out"; then echo "$id $prop CAUGHT"; else echo "$id $prop MISSED rc=$rc"; fi
  else echo "$id NOAPPLY"; fi
  rm -rf "$d"
done
