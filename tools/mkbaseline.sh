#!/bin/bash
# the shapes of the functions the contracts were written for
cd "$(dirname "$0")/.." && mkdir -p work
extract/target/release/extract --out work/all.rs --report work/all.json || exit 1
python3 - <<'P'
import json
r=json.load(open('work/all.json'))
b={"fns":{k:{x:f[x] for x in ("loops","closures","branches","exits","asserts","calls","bindings")} for k,f in r['fns'].items()}}
json.dump(b,open('baseline.json','w'),indent=0,sort_keys=True)
print(len(b['fns']))
P
