#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py tables (edits applied to /repo, diffed, undone)."""
import glob, json, os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
S = os.environ.get("SEEDS_OUT") or os.path.join(H, "..", "seeded")
SEEDS = {}
for f in sorted(glob.glob(os.path.join(H, "seeds", "*.py"))):
    exec(open(f).read())
RUST = '''#!/bin/bash
# Compiles a small program against the crate in /repo and runs it (scratch directory only): with the
# library that build.sh has just made if it is there and newer than the sources, else through cargo.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="${CARGO_HOME:-$HOME/.cargo}/bin:$PATH" CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
b=/repo/target/@CONF@/debug
lib=$b/deps/libinterpn.rlib
[ -f $lib ] || lib=$b/libinterpn.rlib
if [ -f $lib ] && [ -z "$(find /repo/src /repo/Cargo.toml -newer $lib -type f | head -1)" ]; then
    for nt in $(ls -t $b/deps/libnum_traits-*.rlib); do
        if timeout 200 rustc --edition 2024 -C opt-level=1 -o "$d/demo" "$d/src/main.rs" \
            --extern interpn=$lib --extern num_traits=$nt -L dependency=$b/deps 2> "$d/log"; then
            timeout 250 "$d/demo"
            exit
        fi
    done
fi
set -e
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
interpn = { path = "/repo" @FEAT@ }
@DEPS@[profile.dev]
opt-level = 1
debug = false
X
cd "$d"
CARGO_TARGET_DIR="$d/t" timeout 280 cargo run -q --offline
'''
PY = '''#!/bin/bash
# Runs demo.py against the package as built from /repo (extension module) with /repo's Python sources.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
cp -r /opt/vp/work/site/. "$d/"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d" timeout 250 /opt/vp/venv/bin/python -W ignore "$here/demo.py"
'''
want = sys.argv[1:]
import shutil, tempfile
W = tempfile.mkdtemp()
subprocess.run(["git", "clone", "-q", "/repo", W + "/r"], check=True)
W += "/r"
for sid, s in SEEDS.items():
    if want and sid not in want:
        continue
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        assert t.count(old) >= 1, (sid, f, t.count(old))
        assert t.count(old) == 1 or s.get("all"), (sid, f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    d = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])
    o = os.path.join(S, sid)
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "w").write(d)
    if "rust" in s:
        feat = s.get("features")
        extra = "".join(", " + x for x in ([f"features = {json.dumps(feat)}"] if feat else []) + (["default-features = false"] if s.get("nostd") else []))
        open(os.path.join(o, "demo.sh"), "w").write(RUST.replace("@FEAT@", extra).replace("@DEPS@", 'num-traits = "0.2"\n' if s.get("w") else "").replace("@CONF@", "nostd" if s.get("nostd") else "fma" if feat else "std"))
        if s.get("w"):
            subprocess.run(["cp", os.path.join(H, "seeds", "w.rs"), os.path.join(o, "w.rs")])
        open(os.path.join(o, "main.rs"), "w").write(s["rust"])
        subprocess.run(["cp", os.path.join(H, "seeds", "Cargo.lock"), os.path.join(o, "Cargo.lock")])
    else:
        open(os.path.join(o, "demo.sh"), "w").write(PY)
        open(os.path.join(o, "demo.py"), "w").write(s["py"])
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
    print(sid, len(d.splitlines()))
shutil.rmtree(os.path.dirname(W))
