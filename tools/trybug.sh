#!/bin/bash
# tools/trybug.sh ID [PROP] : apply a planted change to /repo, run the property's quick check, undo
id=$1; prop=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
trap 'git -C /repo checkout -- .' EXIT
cd /verif && python3 check.py $prop > /tmp/trybug.$id.log 2>&1; rc=$?
echo "$id $prop rc=$rc $(grep -c VIOLATION /tmp/trybug.$id.log) $(grep -o 'proof: [a-z]*' /tmp/trybug.$id.log) $(tail -1 /tmp/trybug.$id.log | cut -c1-150)"
