#!/bin/bash
# builds the harness and all its checks once, so that each check only rebuilds what changed
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
mkdir -p "$CARGO_TARGET_DIR"
rc=0
built harness ms_toollib --bins >"$CARGO_TARGET_DIR/setup.log" 2>&1 || rc=1
built_py >>"$CARGO_TARGET_DIR/setup.log" 2>&1 || rc=1
built_js >>"$CARGO_TARGET_DIR/setup.log" 2>&1 || rc=1
built_c >>"$CARGO_TARGET_DIR/setup.log" 2>&1 || rc=1
tail -3 "$CARGO_TARGET_DIR/setup.log"
exit $rc
