#!/bin/bash
# usage: run.sh <PROPERTY> [--replay stage:hexseed]   (VERIF_SEED, VERIF_TIER=quick|thorough)
# Rebuilds the harness against /repo's current working tree, then runs the property's monitors.
# exit 0 held, 1 violation, 2 no answer (build failure, monitors observed nothing, killed from outside)
ID=$1; shift
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd "$VERIF_ROOT" || exit 2
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
mkdir -p run evidence "$CARGO_TARGET_DIR"
rm -f "evidence/$ID.json"
exec 9>"$CARGO_TARGET_DIR/.vk.lock"; flock 9
no_answer() { echo "NO-ANSWER property=$ID: $1 does not build against /repo"; tail -30 "run/$ID.build.log"; exit 2; }
built harness ms_toollib --bin "$bin" >"run/$ID.build.log" 2>&1 || no_answer "the harness"
cp -f "$CARGO_TARGET_DIR/debug/$bin" "run/$bin.bin"
# checks of another language's interface talk to a process that runs it
case $ID in
  C30|C31)
    built_py >"run/$ID.build.log" 2>&1 || no_answer "the Python module"
    cp -f "$CARGO_TARGET_DIR/debug/libms_toollib.so" "run/$bin.so"
    export VK_REMOTE="python3 $VERIF_ROOT/pyext/side.py $VERIF_ROOT/run/$bin.so" ;;
  C32)
    built_js >"run/$ID.build.log" 2>&1 || no_answer "the JavaScript interface"
    cp -f "$CARGO_TARGET_DIR/debug/jsext" "run/$bin.js"
    export VK_REMOTE="$VERIF_ROOT/run/$bin.js" ;;
  C33)
    built_c >"run/$ID.build.log" 2>&1 || no_answer "the C interface"
    cp -f "$CARGO_TARGET_DIR/debug/cside" "run/$bin.asan"
    cp -f "$CARGO_TARGET_DIR/debug/clayout" "run/$bin.layout"
    export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=9:alloc_dealloc_mismatch=1
    export VK_REMOTE="$VERIF_ROOT/run/$bin.asan" VK_REMOTE2="$VERIF_ROOT/run/$bin.layout" ;;
esac
exec 9>&-
# AddressSanitizer reserves more addresses than the limit
[ "$ID" = C33 ] || ulimit -v 16000000
exec "run/$bin.bin" "$@"
