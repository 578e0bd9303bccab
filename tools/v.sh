#!/bin/bash
# dev helper: extract and verify everything (or one property)
mkdir -p /tmp/w; cd /tmp/w
/verif/extract/target/release/extract --out /tmp/w/o.rs --report /tmp/w/r.json ${PROP:+--prop $PROP} || true
verus --triggers-mode silent --num-threads 8 "$@" o.rs 2>&1 | grep -vE "^warning: unused|^ *$|similarly named|^help: a function|^ *[0-9]* [-+] |^\.\.\.$" | head -${N:-60}
