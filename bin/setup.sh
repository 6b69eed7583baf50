#!/bin/bash
# builds the extraction tool and the harness, offline
set -e
cd "$(dirname "$0")/.."
python3 bin/oracle.py
(cd extract && cargo build --release --offline --quiet)
(cd harness && cargo build --release --offline --quiet)
