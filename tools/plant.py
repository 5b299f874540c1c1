#!/usr/bin/env python3
"""Developer tool: makes seeded/<id>/ from tools/seeds.py and confirms each change in a scratch copy.
usage: plant.py [id ...]   (no check reads seeded/ or this file)"""
import json, os, re, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings")
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
here=$(cd "$(dirname "$0")" && pwd)
export OBR_PARAMS="$PWD/base"
w=$(mktemp -d) && trap 'rm -rf "$w"' EXIT
mkdir "$w/src" "$w/files" && cp "$here/main.rs" "$w/src/" && cp base/Cargo.lock "$w/"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nms_toollib = { path = "%s/base" }\\n[profile.dev]\\ndebug = false\\n[profile.dev.package.ms_toollib]\\nopt-level = 1\\n' "$PWD" > "$w/Cargo.toml"
cd "$w" && CARGO_TARGET_DIR="${DEMO_TARGET:-$w/target}" cargo build --offline -q || exit 3
cd "$w/files" && timeout 200 "${DEMO_TARGET:-$w/target}/debug/demo"
'''
HEAD = DEMO[:DEMO.index("mkdir ")]
DEMO_PY = HEAD + '''cp python_package/target/debug/libms_toollib.so "$w/ms_toollib.so" || exit 3
mkdir "$w/files" && cd "$w/files" && PYTHONPATH="$w" PYTHONDONTWRITEBYTECODE=1 timeout 200 python3 "$here/main.py"
'''
DEMO_JS = HEAD + '''mkdir "$w/src" "$w/files" && cp "$here/main.rs" "$w/src/" && cp "$here/Cargo.lock" "$w/" && cp -R wasm/src "$w/iface"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[lib]\\nname = "iface"\\npath = "iface/lib.rs"\\n[dependencies]\\nwasm-bindgen = "0.2.90"\\nserde_json = "1.0.59"\\nserde = "1.0.130"\\nms_toollib = { path = "%s/base", default-features = false, features = ["js"] }\\n[dependencies.web-sys]\\nversion = "0.3.4"\\nfeatures = ["console"]\\n[profile.dev]\\ndebug = false\\n[profile.dev.package.ms_toollib]\\nopt-level = 1\\n' "$PWD" > "$w/Cargo.toml"
sed -i 's/^mod /pub mod /' "$w/iface/lib.rs"
cd "$w" && CARGO_TARGET_DIR="${DEMO_TARGET:-$w/target}" cargo build --offline -q || exit 3
cd "$w/files" && timeout 200 "${DEMO_TARGET:-$w/target}/debug/demo"
'''
DEMO_C = HEAD + '''cp "$here/Cargo.lock" "$w/"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[lib]\\nname = "iface"\\npath = "%s/c/src/lib.rs"\\ncrate-type = ["staticlib"]\\n[dependencies]\\nlibc = "0.2.0"\\nms_toollib = { path = "%s/base", features = ["rs"] }\\n[profile.dev]\\ndebug = false\\npanic = "abort"\\n[profile.dev.package.ms_toollib]\\nopt-level = 1\\n' "$PWD" "$PWD" > "$w/Cargo.toml"
inc=$PWD/c t=${DEMO_TARGET:-$w/target}
cd "$w" && CARGO_TARGET_DIR="$t" cargo build --offline -q || exit 3
clang -g -fsanitize=address -I"$inc" -o "$w/demo" "$here/main.c" "$t/debug/libiface.a" -lpthread -ldl -lm 2>/dev/null || exit 3
mkdir "$w/files" && cd "$w/files" && timeout 200 "$w/demo"
'''
KINDS = dict(rs=(DEMO, "main.rs", None), py=(DEMO_PY, "main.py", None), js=(DEMO_JS, "main.rs", "jsext"), c=(DEMO_C, "main.c", "cext"))
SEEDS = {}
def seed(id, prop, needs, breaks, edits, main, kind="rs"):
    SEEDS[id] = (prop, needs, breaks, edits, main, kind)
def lock(folder, extra):
    """the lock file of the demonstration: that of the check, for a package called demo"""
    t = open(f"{ROOT}/{folder}/Cargo.lock").read()
    parts = [x for x in t.split("\n\n[[package]]\n") if not x.startswith('name = "oracle"')]
    t = "\n\n[[package]]\n".join(x.rstrip("\n") for x in parts) + "\n"
    return t.replace(f'name = "{folder}"', 'name = "demo"').replace(' "oracle",\n', "")
exec(open(ROOT + "/tools/seeds.py", encoding="utf-8").read())

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def tests():
    t = ""
    r = sh("timeout 900 cargo test --no-fail-fast --offline -- --test-threads 1 --skip laymine_solvable_adjust_works", cwd=WT + "/base", env=ENV)
    return {l for l in (r.stdout + r.stderr).splitlines() if re.match(r"test .* \.\.\. ok", l)}, (r.stdout + r.stderr)

def stable_names():
    return json.load(open("/opt/vp/BASELINE.json"))["stable"]

def demo(d):
    if d.endswith(".py") or os.path.exists(d + "/main.py"):
        r = sh("cargo build --offline -q", cwd=WT + "/python_package", env=ENV)
        if r.returncode:
            return 3, r.stderr[-600:]
    e = dict(os.environ, DEMO_TARGET="/tmp/demotarget")
    # a fresh directory name as in the real check
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=WT, env=e, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-600:]

if not os.path.isdir(WT):
    sh(f"cp -a /repo {WT}")
sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd", cwd=WT)
base, _ = tests()
print(len(base), "tests pass on the unchanged copy")
for id in sys.argv[1:] or list(SEEDS):
    prop, needs, breaks, edits, main, kind = SEEDS[id]
    text, name, lk = KINDS[kind]
    d = f"{ROOT}/seeded/{id}"
    sh("git checkout -q -- .", cwd=WT)
    for f, a, b, *nth in edits:
        p = f"{WT}{f}" if f.startswith("/") else f"{WT}/base/src/{f}"
        s = open(p, newline="").read()
        if "\r\n" in s:
            a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
        if nth:
            parts = s.split(a)
            s = a.join(parts[:nth[0]]) + b + a.join(parts[nth[0]:])
        else:
            assert s.count(a) == 1, (id, f, s.count(a), a)
            s = s.replace(a, b)
        open(p, "w", newline="").write(s)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w", newline="").write(subprocess.run(["git", "diff"], cwd=WT, capture_output=True).stdout.decode())
    open(d + "/demo.sh", "w").write(text)
    if lk:
        open(d + "/Cargo.lock", "w").write(lock(lk, kind))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/" + name, "w").write(main)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    t, log = tests()
    bad = base - t
    rc1, o1 = demo(d)
    sh("git checkout -q -- .", cwd=WT)
    rc0, o0 = demo(d)
    ok = not bad and rc0 == 0 and rc1 not in (0, 3)
    print(id, prop, "OK" if ok else "BAD", "demo", rc0, rc1, "lost tests:", sorted(bad))
    if not ok:
        print("  clean:", o0, "\n  changed:", o1)
