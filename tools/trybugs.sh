#!/bin/sh
# trybugs.sh W TIER ID...: does the check of its property catch each planted change?  (development only)
# W: a scratch workspace of mutate.py under /tmp/mut, made anew from /repo and /verif
v=$(cd "$(dirname "$0")/.." && pwd); w=/tmp/mut/$1; tier=$2; shift 2
python3 "$(dirname "$0")/mutate.py" init "$(basename "$w")" || exit 1
for id in "$@"; do
  d=$v/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd "$w/repo" && git checkout -q -- . && git apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  ( cd "$w/verif" && HAMPI_REPO=$w/repo VERIF_SEED=1 VERIF_TIER=$tier timeout 900 ./check "$p" "$tier" > "/tmp/mut/try.$id.log" 2>&1 ); rc=$?
  git checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' "/tmp/mut/try.$id.log" | cut -c1-100)"
done
