#!/bin/bash
# convenience: run several checks, stop at build errors
cd "$(dirname "$0")"
for p in "$@"; do python3 vt.py check $p 2>&1 | cut -c1-600 | head -${LINES_MAX:-40}; [ ${PIPESTATUS[0]} = 3 ] && exit 3; done
