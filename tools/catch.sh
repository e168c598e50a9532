#!/bin/bash
# catch.sh [ID...]: run the check of each planted bug's property against a scratch
# copy of /repo with the bug applied (development aid; not a registered check)
cd "$(dirname "$0")/.."; SD=${SEEDED:-$PWD/seeded}
ids="$*"; [ -z "$ids" ] && ids=$(ls $SD)
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('$SD/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/catch.XXXXXX); cp -a /repo "$d/r"
  if ! git -C "$d/r" apply "$SD/$id/patch.diff"; then echo "$id: patch does not apply"; rm -rf "$d"; continue; fi
  s=$(date +%s)
  VERIF_REPO="$d/r" bash check.sh "$p" > "$d/out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -c VIOLATION "$d/out")"
  [ $rc -ne 1 ] && tail -3 "$d/out"
  grep -B2 -m1 VIOLATION "$d/out" | head -2 | cut -c1-300
  rm -rf "$d"
done
