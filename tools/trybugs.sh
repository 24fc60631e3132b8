#!/bin/bash
# trybugs.sh [ID...]: runs the claimed check of each planted bug with the bug applied, in a private copy
# (SLOTS of them at a time, default 2)
cd "$(dirname "$0")/.." || exit 1
ids=("$@")
[ ${#ids[@]} -gt 0 ] || ids=($(ls seeded))
one() {
  slot=$1 id=$2
  d=/verif/seeded/$id
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  cp "$d/patch.diff" "/tmp/rt/$slot.diff"
  s=$SECONDS
  /verif/tools/isolated.sh "$slot" bash -c 'git -C /repo checkout -q -- . && git -C /repo apply "$2" || exit 99; timeout 900 bash check.sh "$1"' _ "$p" "/tmp/rt/$slot.diff" >"/tmp/rt/$id.log" 2>&1
  rc=$?
  echo "$id $p rc=$rc $((SECONDS-s))s $(grep -m1 "^VIOLATION" "/tmp/rt/$id.log")"
}
mkdir -p /tmp/rt
n=${SLOTS:-2}
for ((k = 0; k < n; k++)); do
  ( for ((i = k; i < ${#ids[@]}; i += n)); do one "s$k" "${ids[$i]}"; done ) &
done
wait
