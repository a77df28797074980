#!/bin/bash
# Builds the harness once and makes sure the compiled specification is there.
cd "$(dirname "$0")" || exit 2
python3 - <<'P'
import sys
sys.path.insert(0, 'tools')
import lib, checks
print(lib.build_harness())
print(lib.build_tape())
for k in sorted(checks.machines()):
    lib.ir_of(*k)
P
