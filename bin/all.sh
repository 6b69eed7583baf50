#!/bin/bash
# runs every check once (quick tier) and prints the last line of each, plus anything that is not plain "held"
cd "$(dirname "$0")/.."
for p in $(python3 -c "import sys; sys.path.insert(0,'bin'); import table; print(*table.PROPS)"); do
  python3 bin/check.py $p > /tmp/all-$p.log 2>&1; rc=$?
  echo "$p rc=$rc $(grep -c UNDECIDED /tmp/all-$p.log) $(tail -1 /tmp/all-$p.log)"
done
