#!/bin/bash
# Builds the extractor and the monitor once (every check rebuilds what changed).
set -e
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true
(cd extract && cargo build --offline -q)
(cd monitor && cargo build --offline -q)
