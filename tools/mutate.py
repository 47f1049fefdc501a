#!/usr/bin/env python3
"""Small mutations of /repo's source in scratch copies: which of those the tests
let pass do the checks miss?   mutate.py WORKERS SEED OUT FILE...

Nothing here is used by the checks; survivors are judged by hand."""
import os, random, re, shutil, subprocess, sys, threading, queue
W = os.environ.get("MUT", "/tmp/mut")

CLIENT = "C32 C33 C31 C29 C30 C25 C27 C24 C26 C28"
MAP = {
    "src/client": CLIENT, "src/irc/wide": "C03 C02", "src/irc/tags/": "C03 C04", "src/irc/tags.rs": "C03 C07 C05",
    "src/irc/prefix.rs": "C08", "src/irc/command.rs": "C09", "src/irc/params.rs": "C02", "src/irc/channel.rs": "C02",
    "src/irc.rs": "C02 C07 C03 C06 C22 C08 C09", "src/common": "C16 C06 C24", "src/common.rs": "C18 C22 C06 C16",
    "src/msg.rs": "C10 C17 C18 C19 C20 C11 C22 C21", "src/msg/macros.rs": "C10 C22",
    "src/msg/privmsg.rs": "C11 C19 C20 C10 C21 C22", "src/msg/user_notice.rs": "C12 C20 C10 C21 C22",
    "src/msg/clear": "C13 C10 C22", "src/msg/room_state.rs": "C14 C10 C22", "src/msg/user_state.rs": "C15 C10 C22",
    "src/msg/global_user_state.rs": "C15 C10 C22", "src/msg/whisper.rs": "C15 C10 C22",
    "src/msg/": "C16 C10 C22", "src/lib.rs": "C07 C10",
}

def props(f):
    best = max((k for k in MAP if f.startswith(k)), key=len, default=None)
    return MAP[best].split() if best else []

def regions(text):
    """lines which are code"""
    out, skip = [], False
    for n, l in enumerate(text.split("\n")):
        s = l.strip()
        if s.startswith("#[cfg(test)]"): break
        if not s or s.startswith(("//", "#[", "#!", "use ", "pub use", "mod ", "pub mod", "*", "}", "trace!", "debug!", "warn!", "info!", "error!", "compile_error!", "debug_assert", "#[error", 'b"')) and not s.startswith("} else if"): continue
        out.append(n)
    return out

SWAP = [(" == ", " != "), (" != ", " == "), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "),
        ("&&", "||"), ("||", "&&"), (" + 1", ""), (" - 1", ""), (" + ", " - "), (" - ", " + "), ("true", "false"), ("false", "true"),
        (".find(", ".rfind("), (".split_once(", ".rsplit_once("), (".starts_with(", ".ends_with("), (".strip_prefix(", ".strip_suffix("),
        (".min(", ".max("), (".max(", ".min("), (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), (".is_empty()", ".is_empty().eq(&false)"),
        (".and_then(", ".filter(|_| false).and_then("), ("..=", ".."), (".trim_start()", ".trim()"),
        ("saturating_mul", "wrapping_mul"), ("saturating_add", "wrapping_add"), ("as_str()", "as_str().trim()"), (" * ", " + "),
        ("break", "continue"), ("continue", "break"), (".to_owned()", ".to_lowercase()"), (".parse()", ".trim().parse()"), ("?;", ";"), (".await?", ".await.ok()"),
        ("initial_delay", "max_delay"), ("max_delay", "initial_delay"), ("from_secs(", "from_millis("), ("from_millis(", "from_secs(")]

def mutants(f, text):
    L = text.split("\n")
    for n in regions(text):
        l = L[n]
        code = l.split(" // ")[0]
        for a, b in SWAP:
            for m in re.finditer(re.escape(a), code):
                yield n, l[:m.start()] + b + l[m.end():]
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.\"])", code):
            v = int(m.group(1))
            yield n, l[:m.start()] + str(v + 1) + l[m.end():]
            if v: yield n, l[:m.start()] + str(v - 1) + l[m.end():]
        for m in re.finditer(r'"((?:[^"\\]|\\.)+)"', code):
            s = m.group(1)
            yield n, l[:m.start()] + '"' + s[:-1] + ("x" if s[-1] != "x" else "y") + '"' + l[m.end():]
        for m in re.finditer(r"b?'(\\?.)'(?!\w)", code):
            yield n, l[:m.start()] + m.group(0).split("'")[0] + "'!'" + l[m.end():]
        s = code.strip()
        if s.endswith(";") and not s.startswith(("let ", "return", "const ", "static ", "pub ", "type ", "break", "continue")) and "(" in s or re.match(r"[\w.*]+ [+\-*|]?= .*;$", s):
            yield n, re.match(r"\s*", l).group(0) + "// gone"
        m = re.match(r"(\s*(?:\} else )?if )(?!let)(.*)( \{)$", code)
        if m:
            yield n, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)
            yield n, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3)
            yield n, m.group(1) + "true || (" + m.group(2) + ")" + m.group(3)

def sh(c, t, **e):
    p = subprocess.Popen(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, env=dict(os.environ, **e))
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return 124, ""

def setup(k):
    d = f"{W}/{k}"
    if not os.path.isdir(d + "/repo"):
        os.makedirs(d, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    os.makedirs(d + "/verif", exist_ok=True)
    for x in ("build.py", "check.py", "spec.py", "harness", "client", "symex", "tools", "work", "properties.jsonl", "known-findings.json"):
        if x == "work" and os.path.isdir(f"{d}/verif/work"): continue
        subprocess.run(["cp", "-a", "-T", f"/verif/{x}", f"{d}/verif/{x}"], check=True)
    for x in ("build.py", "harness/Cargo.toml", "client/Cargo.toml"):
        p = f"{d}/verif/{x}"; t = open(p).read()
        t = t.replace('"/repo"', f'"{d}/repo"').replace('"../../repo"', f'"{d}/repo"')
        open(p, "w").write(t)
    return d

def worker(k, q, out):
    d = setup(k)
    while True:
        try: f, n, new = q.get_nowait()
        except queue.Empty: return
        p = f"{d}/repo/{f}"
        text = open(f"/repo/{f}").read()
        L = text.split("\n"); old = L[n]; L[n] = new
        open(p, "w").write("\n".join(L))
        try:
            rc, o = sh(f"cd {d}/repo && cargo test -q --offline --lib --all-features", 180, RUSTFLAGS=FLAGS, INSTA_UPDATE="no", CARGO_INCREMENTAL="1")
            if rc:
                res = "uncompiled" if "could not compile" in o else "tests"
            else:
                res = "SURVIVED"
                for pr in props(f):
                    rc, o = sh(f"cd {d}/verif && VERIF_BUDGET=250 python3 check.py {pr} quick", 600)
                    if rc: 
                        res = f"{pr} rc={rc}" + ("" if rc == 1 else " " + o[-300:].replace("\n", " | "))
                        if rc == 1: break
        finally:
            open(p, "w").write(text)
        with lock:
            print(f"{res}\t{f}:{n+1}\t{old.strip()}\t=>\t{new.strip()}", file=out, flush=True)

if __name__ == "__main__":
    env = open("/opt/vp/env.sh").read()
    FLAGS = re.search(r'MAIN_FLAGS="?([^"\n]*)', env).group(1)
    workers, seed, outp, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4:]
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            x = l.rstrip("\n").split("\t")
            if len(x) == 5: done.add((x[1], x[4]))
    ms = []
    for f in files:
        L0 = open("/repo/" + f).read().split("\n")
        L = list(dict.fromkeys(mutants(f, open("/repo/" + f).read())))
        for n, new in random.Random(seed).sample(L, min(len(L), int(os.environ.get("LIMIT", "1000")))):
            if (f"{f}:{n+1}", new.strip()) not in done and new != L0[n]: ms.append((f, n, new))
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants")
    q = queue.Queue()
    for m in ms: q.put(m)
    lock = threading.Lock()
    out = open(outp, "a")
    ts = [threading.Thread(target=worker, args=(k, q, out)) for k in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
