#!/bin/bash
# slowest functions of the last extraction in /tmp/w/o.rs
cd /tmp/w
verus --triggers-mode silent --num-threads 8 --rlimit 40 --output-json --time-expanded "$@" o.rs > /tmp/w/t.json 2>/tmp/w/t.err
python3 - <<'P'
import json
j=json.load(open('/tmp/w/t.json'))
print(j['verification-results'])
L=[]
for m in j['times-ms']['smt']['smt-run-module-times']:
    for f in m.get('function-breakdown',[]): L.append((f['time'],f['rlimit'],f['function']))
L.sort(reverse=True)
for t in L[:15]: print(t)
print('total',j['times-ms']['total'])
P
grep -E "^error" -A4 /tmp/w/t.err | head -40
