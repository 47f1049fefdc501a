#!/usr/bin/env python3
"""Plants bugs: seed.py ID...   (definitions in tools/seeds/*.py, BUGS = {id: dict})

For each bug: makes the change in a scratch copy of /repo, writes
/verif/seeded/ID/{patch.diff,demo.sh,demo.rs,meta.json}, and confirms that the
demo passes without the change and fails with it and that the stable tests
pass with it.  Nothing here is used by the checks.
"""
import glob, json, os, runpy, shutil, subprocess, sys
W = "/tmp/seedwork"

DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0: behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf -- "$dir"' EXIT
mkdir "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
@KIT@cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
tmi = { path = "$repo", default-features = false, features = [@FEATURES@] }
@DEPS@
[workspace]
END
cd "$dir" || exit 2
export RUSTFLAGS="@FLAGS@"
unset CARGO_TARGET_DIR
timeout 280 cargo run -q --offline
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)

def fresh():
    os.makedirs(W, exist_ok=True)
    r = sh(f"rsync -a --delete --exclude /target /repo/ {W}/repo/") if shutil.which("rsync") else None
    if r is None:
        if not os.path.isdir(W + "/repo"): sh(f"cp -a /repo {W}/repo")
        sh(f"cd {W}/repo && git checkout -q --detach $(git -C /repo rev-parse HEAD) 2>/dev/null || git fetch -q /repo && git checkout -q --detach FETCH_HEAD; git checkout -q -- .")

def tests():
    # the stable tests, in the copy: same commands as /opt/vp with the path replaced
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", W + "/repo")
        open(f"{W}/{f}", "w").write(t)
    r = sh(f"bash {W}/build.sh")
    if r.returncode: return "build: " + r.stderr[-1500:]
    r = sh(f"bash {W}/test.sh {W}/out.json")
    try: out = json.load(open(W + "/out.json"))
    except Exception as e: return f"test: {e} {r.stderr[-500:]}"
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("tests") or base.get("stable") or base.get("passed")
    if isinstance(stable, dict): stable = list(stable)
    passed = set(out.get("passed", out if isinstance(out, list) else []))
    miss = [t for t in stable if t not in passed]
    return f"{len(miss)} tests fail: {miss[:4]}" if miss else ""

def make(i, b):
    fresh()
    repo = W + "/repo"
    for (f, old, new) in b["edits"]:
        p = f"{repo}/{f}"
        s = open(p).read()
        n = s.count(old)
        if n != 1: return f"{f}: {n} matches of {old!r}"
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {repo} diff").stdout
    d = f"/verif/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    demo = (DEMO.replace("@FEATURES@", ", ".join(f'"{x}"' for x in b.get("features", ["message-types", "simd"])))
        .replace("@DEPS@", b.get("deps", "")).replace("@FLAGS@", b.get("flags", "")))
    kit = ""
    if b.get("kit"):
        kit = 'cp "$here/net.rs" "$dir/src/net.rs"\nexport KIT="$here"\n'
        for f in ("net.rs", "ca.pem", "leaf.der", "leaf.p8"): shutil.copy("/verif/tools/seeds/kit/" + f, d)
    demo = demo.replace("@KIT@", kit)
    open(d + "/demo.sh", "w").write(demo); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(b["demo"])
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh(f"cd {repo} && bash {d}/demo.sh")
    if r.returncode == 0: return "demo passes with the change"
    bad = r.stderr[-300:]
    if "error[" in r.stderr or "could not compile" in r.stderr: return "demo does not compile: " + r.stderr[-2500:]
    t = tests()
    sh(f"git -C {repo} checkout -q -- .")
    r = sh(f"cd {repo} && bash {d}/demo.sh")
    if r.returncode: return "demo fails without the change: " + r.stderr[-1500:]
    if t: return t
    return "ok   " + " ".join(bad.split())[:160]

bugs = {}
for f in sorted(glob.glob("/verif/tools/seeds/*.py")): bugs.update(runpy.run_path(f)["BUGS"])
ids = sys.argv[1:] or [i for i in bugs if not os.path.isdir("/verif/seeded/" + i)]
for i in ids:
    r = make(i, bugs[i])
    print(i, bugs[i]["property"], r, flush=True)
    if not r.startswith("ok"):
        shutil.rmtree("/verif/seeded/" + i, ignore_errors=True)
