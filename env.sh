# toolchain and build environment shared by setup.sh and run.sh
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CARGO_PROFILE_DEV_DEBUG
export RUSTFLAGS=-Awarnings
VERIF_ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_ROOT
export CARGO_TARGET_DIR=$VERIF_ROOT/target
# content hash of the code under test: cargo decides by modification time, we also decide by content
src_hash() { (cd /repo && find base/src base/Cargo.toml python_package/src wasm/src c/src c/ms_toollib.h -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-64; }
# built <folder> <packages that hold code under test> <cargo build arguments>: builds that workspace, afresh when the content changed
built() {
  local d=$1 p=$2 f h; shift 2
  f=$CARGO_TARGET_DIR/.vk.$d.hash h=$(src_hash)
  if [ "$(cat "$f" 2>/dev/null)" != "$h" ]; then
    rm -f "$f"
    (cd "$VERIF_ROOT/$d" && for x in $p; do cargo clean --offline -p "$x" >/dev/null 2>&1; done)
  fi
  (cd "$VERIF_ROOT/$d" && timeout 700 cargo build --offline --locked "$@") || return 1
  echo "$h" > "$f"
}
built_py() { built pyext "ms_toollib pyext"; }
built_c() {
  built cext "ms_toollib cext" &&
    clang -g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -Wall -Werror=incompatible-pointer-types -I/repo/c \
      -o "$CARGO_TARGET_DIR/debug/cside" "$VERIF_ROOT/cext/side.c" "$CARGO_TARGET_DIR/debug/libms_toollib_c.a" -lpthread -ldl -lm
}
built_js() { js_source && built jsext "ms_toollib jsext"; }
# /repo/wasm's own source with a server added: the recordings are private to its board module
js_source() {
  local d=$CARGO_TARGET_DIR/jssrc n=$CARGO_TARGET_DIR/jssrc.new f
  rm -rf "$n"; mkdir -p "$n" "$d" && cp -R /repo/wasm/src/. "$n"/ && cp "$VERIF_ROOT/jsext/src/server.rs" "$n/vk_server.rs" || return 1
  printf '\n#[path = "%s/vk_server.rs"]\npub mod vk_server;\n' "$d" >> "$n/board.rs"
  printf '\nfn main() {\n    board::vk_server::main()\n}\n' >> "$n/lib.rs"
  diff -rq "$n" "$d" >/dev/null 2>&1 || { rm -rf "$d"; mv "$n" "$d"; }
  rm -rf "$n"
}
