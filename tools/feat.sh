#!/bin/bash
# engine self-test: language and library features outside what /repo uses today (harness/feat.cpp)
cd "$(dirname "$0")/.."
for t in $(seq 0 ${1:-45}); do python3 tools/try.py feat t=$t -b 20 2>&1 | grep -E "paths|incomplete|VIOL|failed" | cut -c1-220; done
