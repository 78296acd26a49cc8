#!/bin/bash
# builds all harnesses, and what they need of /repo
cd "$(dirname "$0")/.." || exit 2
mkdir -p .build evidence
python3 build/gen.py && ninja -C .build harnesses > .build/setup.log 2>&1 || { grep -E "error|FAILED" .build/setup.log | head -30; exit 1; }
