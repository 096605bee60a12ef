#!/bin/bash
cd /tmp; for f in "$@"; do echo "## $f"; timeout 100 verus out.rs --rlimit ${RL:-20} --triggers-mode silent --verify-root --verify-function $f 2>&1 | grep -A7 "^error\|verified" | head -${N:-30}; done
