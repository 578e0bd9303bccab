#!/bin/bash
# Builds the extraction tool and the two search binaries (offline). Checks rebuild what changed by themselves.
set -e
cd "$(dirname "$0")"
mkdir -p work evidence
export CARGO_NET_OFFLINE=true
(cd extract && cargo build --release --offline)
(cd replay && cargo build --release --offline && cargo build --profile checked --offline)
