#!/bin/bash
# dev helper: extract and verify everything (or one property)
mkdir -p /tmp/w; cd /tmp/w
/verif/extract/target/release/extract --out /tmp/w/o.rs --report /tmp/w/r.json ${PROP:+--prop $PROP} || true

