#!/bin/bash
# Builds all monitors from the committed files and /repo's working tree.
cd /verif/harness || exit 1
. /verif/env.sh
mkdir -p /verif/target /verif/evidence
python3 /verif/tools/fresh.py
cargo build --offline --workspace && python3 /verif/tools/fresh.py --save
