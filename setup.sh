#!/bin/bash
# Build the MIR fact extractor and prime the fact cache for the current tree (checks redo this on their own if needed).
set -e
cd "$(dirname "$0")"
python3-vt - <<'P'
import sys; sys.path.insert(0,'lib')
import facts
print(facts.extract())
P
