#!/usr/bin/env python3
"""Builds the executor, the replayer and the harness library of one property.

The harness crate has a path dependency on /repo, so that every build encodes
the current working tree. A build yields the LLVM IR of the whole program (the
input of the executor) and, from the same compilation, the shared library the
replayer loads."""
import os, re, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(VERIF, "work")
REPO = "/repo"

BASE = "-C target-cpu=x86-64 -C no-vectorize-loops -C no-vectorize-slp"
CONFIGS = {
    # name: (cargo features, extra rustc flags)
    "sse2": (["simd"], ""),
    "avx2": (["simd"], " -C target-feature=+avx2"),
    "scalar": ([], ""),
    # the aarch64 code, over portable doubles of the intrinsics
    "neon": (["simd"], ""),
}


def env(extra_flags=""):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            del e[k]
    e.setdefault("HOME", "/root")
    e.setdefault("CARGO_HOME", "/root/.cargo")
    e["PATH"] = e["CARGO_HOME"] + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    if extra_flags:
        e["RUSTFLAGS"] = extra_flags
    return e


class BuildError(Exception):
    pass


def run(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (what, p.stdout[-6000:]))


def lock():
    os.makedirs(WORK, exist_ok=True)
    f = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def engine():
    run(["cargo", "build", "--offline", "--release", "-q"], os.path.join(VERIF, "symex"), env(), "building the executor")
    return os.path.join(VERIF, "symex", "target", "release", "symex")


def replayer():
    out = os.path.join(WORK, "replay")
    src = os.path.join(VERIF, "tools", "replay.c")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        run(["gcc", "-O1", "-g", "-Wall", "-rdynamic", "-o", out, src, "-ldl"], VERIF, env(), "building the replayer")
    return out


def scalar_manifest():
    """A second package over the same sources, so that the scalar and the SIMD
    build of /repo can be linked into one program."""
    d = os.path.join(WORK, "scalar")
    os.makedirs(d, exist_ok=True)
    text = manifest("tmi_scalar", '\n[lib]\npath = "%s/src/lib.rs"\n' % REPO)
    p = os.path.join(d, "Cargo.toml")
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)


def manifest(name, lib=""):
    """/repo's Cargo.toml without what does not concern a dependency."""
    out, skip = [], False
    for line in open(os.path.join(REPO, "Cargo.toml")):
        m = re.match(r"\s*\[+([^\]]+)\]+", line)
        if m:
            s = m.group(1).strip()
            skip = s in ("workspace", "bench", "example", "lib") or s.startswith(("dev-dependencies", "profile"))
        if skip:
            continue
        out.append(re.sub(r'^name\s*=\s*"tmi"', 'name = "%s"' % name, line))
    return "".join(out) + lib + "\n[workspace]\n"


def neon_package():
    """A copy of /repo's sources in which the aarch64 code is selected and its
    intrinsics are doubles, and the harness crate over it."""
    import shutil
    d = os.path.join(WORK, "neon")
    if os.path.isdir(d):
        shutil.rmtree(d)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"), ignore=shutil.ignore_patterns("*.snap"))
    for f in os.listdir(REPO):
        if f.endswith((".md", ".txt")):
            os.symlink(os.path.join(REPO, f), os.path.join(d, f))
    for root, _, files in os.walk(os.path.join(d, "src")):
        for f in files:
            if not f.endswith(".rs"):
                continue
            p = os.path.join(root, f)
            s = t = open(p).read()
            t = re.sub(r'target_arch\s*=\s*"x86_64"', "any()", t)
            t = re.sub(r'target_arch\s*=\s*"aarch64"', "all()", t)
            t = re.sub(r'target_feature\s*=\s*"neon"', "all()", t)
            t = re.sub(r'#\[target_feature\(enable\s*=\s*"neon"\)\]', "", t)
            t = re.sub(r"(core|std)::arch::aarch64", "crate::neon_double", t)
            if s != t:
                open(p, "w").write(t)
    shutil.copyfile(os.path.join(VERIF, "tools", "neon_double.rs"), os.path.join(d, "src", "neon_double.rs"))
    lib = os.path.join(d, "src", "lib.rs")
    open(lib, "a").write("\n#[allow(missing_docs, dead_code)]\nmod neon_double;\n")
    open(os.path.join(d, "Cargo.toml"), "w").write(manifest("tmi"))
    h = os.path.join(WORK, "neon-harness")
    os.makedirs(h, exist_ok=True)
    t = open(os.path.join(VERIF, "harness", "Cargo.toml")).read()
    t = t.replace('"/repo"', '"../neon"').replace('"../work/scalar"', '"../scalar"').replace("[lib]\n", '[lib]\npath = "%s/harness/src/lib.rs"\n' % VERIF)
    open(os.path.join(h, "Cargo.toml"), "w").write(t)
    shutil.copyfile(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(h, "Cargo.lock"))
    return h


def tokio_double():
    """A copy of tokio's source whose clock and sockets are doubles."""
    import glob, shutil
    v = re.search(r'name = "tokio"\nversion = "([^"]+)"', open(os.path.join(REPO, "Cargo.lock")).read()).group(1)
    d = os.path.join(WORK, "tokio")
    doubles = os.path.join(VERIF, "client", "doubles", "tokio")
    into = {"sleep.rs": "src/time/sleep.rs", "instant.rs": "src/time/instant.rs", "net.rs": "src/net/mod.rs"}
    stamp = v + "".join(open(os.path.join(doubles, f)).read() for f in sorted(into))
    sp = os.path.join(d, "stamp")
    if os.path.exists(sp) and open(sp).read() == stamp:
        return
    if os.path.isdir(d):
        shutil.rmtree(d)
    reg = os.path.join(env()["CARGO_HOME"], "registry")
    src = glob.glob(os.path.join(reg, "src", "*", "tokio-" + v))
    crates = glob.glob(os.path.join(reg, "cache", "*", "tokio-%s.crate" % v))
    if src:
        shutil.copytree(src[0], d, ignore=shutil.ignore_patterns("tests", "docs", ".cargo*"))
    elif crates:
        import tarfile
        with tarfile.open(crates[0]) as t:
            t.extractall(WORK, filter="data")
        os.rename(os.path.join(WORK, "tokio-" + v), d)
    else:
        raise BuildError("the source of tokio %s is not in the cargo cache" % v)
    os.unlink(os.path.join(d, "Cargo.lock")) if os.path.exists(os.path.join(d, "Cargo.lock")) else None
    for f, t in into.items():
        shutil.copyfile(os.path.join(doubles, f), os.path.join(d, t))
    with open(os.path.join(d, "Cargo.toml"), "a") as f:
        f.write("\n[workspace]\n")
    open(sp, "w").write(stamp)


def harness(prop, config, thorough=False, crate="harness"):
    """Returns (path of the .ll, path of the .so)."""
    feats, flags = CONFIGS[config]
    feats = list(feats) + [prop] + (["thorough"] if thorough else [])
    if crate == "client":
        tokio_double()
    else:
        scalar_manifest()
    d = neon_package() if config == "neon" else os.path.join(VERIF, crate)
    tgt = os.path.join(WORK, "target-" + crate + "-" + config)
    e = env(BASE + flags)
    e["CARGO_TARGET_DIR"] = tgt
    name = "h"
    for f in os.listdir(os.path.join(tgt, "release", "deps")) if os.path.isdir(os.path.join(tgt, "release", "deps")) else []:
        if f in (name + ".ll", "lib" + name + ".so"):
            os.unlink(os.path.join(tgt, "release", "deps", f))
    # the crate root is touched through a changed environment: always rebuild it
    marker = os.path.join(tgt, "release", ".fingerprint")
    if os.path.isdir(marker):
        import shutil
        for f in os.listdir(marker):
            if f.startswith(name + "-"):
                shutil.rmtree(os.path.join(marker, f))
    run(["cargo", "rustc", "--offline", "--release", "-q", "--features", ",".join(feats), "--", "--emit=llvm-ir"],
        d, e, "building the harness of %s (%s)" % (prop, config))
    out = os.path.join(WORK, "bin", "%s-%s%s" % (prop, config, "-t" if thorough else ""))
    os.makedirs(out, exist_ok=True)
    import shutil
    ll, so = os.path.join(out, "h.ll"), os.path.join(out, "libh.so")
    shutil.copyfile(os.path.join(tgt, "release", "deps", "h.ll"), ll)
    shutil.copyfile(os.path.join(tgt, "release", "libh.so"), so)
    return ll, so


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "setup":
        with lock():
            print(engine()); print(replayer()); scalar_manifest(); tokio_double()
    else:
        print(harness(a[0], a[1] if len(a) > 1 else "sse2", "-t" in a, "client" if a[0] >= "c24" else "harness"))
