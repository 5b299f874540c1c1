#!/bin/bash
# developer helper: build and run checks
. /verif/env.sh
cd /verif/harness && cargo build --offline --bin ${1} 2>&1 | grep -E "^(error|warning: unused)" -A9 | head -${L:-60}
cd /verif && shift && true
