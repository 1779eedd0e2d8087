#!/bin/bash
# builds the symbolic IR and the native replay binary once; every check rebuilds what changed
cd "$(dirname "$0")" || exit 1
./build_ir.sh >/dev/null 2>&1
(cd native && CARGO_TARGET_DIR=../target/native cargo build --offline >/dev/null 2>&1)
python3-vt -m compileall -q engine check.py >/dev/null 2>&1
exit 0
