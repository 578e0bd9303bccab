#!/bin/bash
# tools/searchbug.sh SECS ID... : only the search, against planted changes
secs=$1; shift
trap 'git -C /repo checkout -- .' EXIT
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo checkout -- . ; git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
  cd /verif/replay && (cargo build -q --offline --release & cargo build -q --offline --profile checked & wait) 2>&1 | grep -E "^error" 
  for pr in release checked; do
    timeout 500 ./target/$pr/goban-replay search --prop $prop --seed 1 --secs $secs --out /tmp/sb.$pr > /tmp/sb.$pr.out 2>&1 &
  done; wait
  echo "$id $prop release: $(head -1 /tmp/sb.release.out | cut -c1-110) | checked: $(head -1 /tmp/sb.checked.out | cut -c1-60)"
done
