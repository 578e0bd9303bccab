#!/bin/bash
bash /verif/tools/x.sh
cd /tmp/w; for f in "$@"; do echo "== $f"; timeout 300 verus --triggers-mode silent --num-threads 8 --rlimit ${RL:-30} --multiple-errors 5 --verify-root o.rs --verify-function $f 2>&1 | grep -v "^note: verifying"; done
