#!/bin/bash
# dev helper: reachability probes (an assertion of false behind a fresh condition) at every function start, loop head, loop end, closure start and function end;
# each must FAIL to verify: otherwise a precondition, invariant or assumed contract is contradictory there
mkdir -p /tmp/w; cd /tmp/w
/verif/extract/target/release/extract --vacuity --out vac.rs --report vac.json ${PROP:+--prop $PROP}
timeout 1500 verus --triggers-mode silent --num-threads 8 --rlimit ${RL:-20} --multiple-errors 100 vac.rs > vac.log 2>&1
python3 - <<'P'
import re
t=open('/tmp/w/vac.rs').read().splitlines(); log=open('/tmp/w/vac.log').read()
pts={}
fn=None
for i,l in enumerate(t,1):
    m=re.search(r'// @@FN (.*)',l)
    if m: fn=m.group(1)
    m=re.search(r'// VAC (\d+) (.*)',l)
    if m: pts[i]=(int(m.group(1)),m.group(2),fn)
hit=set(int(x) for x in re.findall(r'--> vac\.rs:(\d+)',log))
miss=[v for k,v in sorted(pts.items()) if k not in hit]
print(len(pts),'probes,',len(pts)-len(miss),'refuted; not refuted:')
for m in miss: print('  ',m)
print(log[-300:])
P
