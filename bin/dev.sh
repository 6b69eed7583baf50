#!/bin/bash
# dev helper: assemble and verify units
for u in "$@"; do echo "== $u"; python3 /verif/bin/asm.py $u /tmp/w/$u.rs && (time timeout ${T:-300} verus /tmp/w/$u.rs --multiple-errors 6 --rlimit ${R:-30} 2>&1 | head -${N:-60}) 2>&1 | grep -v "^user\|^sys\|^$"; done
