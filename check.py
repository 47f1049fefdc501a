#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's tree.

exit 0: no violation in what was explored; exit 1: a violation that was
reproduced by running the compiled code; exit 2: no answer."""
import json, os, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor
import build
from spec import PROPS

VERIF = build.VERIF
JOBS = max(1, min(8, os.cpu_count() or 1))


def say(*a):
    print(*a, flush=True)


def replay_native(so, entry, cases, one=False):
    """verdict and observations for each case file"""
    rp = os.path.join(build.WORK, "replay")
    out = {}
    for i in range(0, len(cases), 200):
        p = subprocess.run([rp, so, entry] + cases[i:i + 200], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        for line in p.stdout.splitlines():
            f = line.split("\t")
            if len(f) == 3:
                out[f[0]] = (f[1].strip(), f[2].split())
    return out


def native_message(so, entry, case):
    rp = os.path.join(build.WORK, "replay")
    p = subprocess.run([rp, "-v", so, entry, case], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    return " ".join(p.stderr.split())[:400]


def valgrind(so, entry, case):
    rp = os.path.join(build.WORK, "replay")
    p = subprocess.run(["valgrind", "--error-exitcode=77", "--quiet", rp, "-1", so, entry, case], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
    return p.returncode, p.stdout


def reproduced(v, verdict, so, entry, case):
    kind = v["kind"]
    if kind == "assert":
        want = v["key"].split(":")[1]
        # an assertion, possibly an earlier one, fails on the real code
        return verdict.startswith("ASSERT"), verdict
    if kind in ("panic", "unreachable", "ub", "stack", "nontermination"):
        if verdict.startswith(("SIGNAL", "TIMEOUT", "ASSERT")):
            return True, verdict
    if kind == "nontermination":
        return False, verdict
    if verdict.startswith(("SIGNAL", "TIMEOUT", "ASSERT")):
        return True, verdict
    try:
        rc, out = valgrind(so, entry, case)
    except Exception as e:
        return False, "valgrind: %s" % e
    if rc == 77:
        return True, "valgrind: " + " ".join(out.split())[:300]
    return False, verdict


def describe(inputs):
    """printable form of a recorded case"""
    o = []
    for l in inputs.splitlines():
        w = l.split()
        if w and w[0] == "b":
            o.append(repr(bytes.fromhex(w[1] if len(w) > 1 else ""))[1:])
        elif w:
            o.append(w[2] + "/" + w[1])
    return " ".join(o)


def main():
    t0 = time.time()
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    runs, assumptions = PROPS[pid]
    runs = [r for r in runs if tier in r.tiers]
    lk = build.lock()
    case_dir = os.path.join(build.WORK, "cases", pid)
    shutil.rmtree(case_dir, ignore_errors=True)
    os.makedirs(case_dir)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        with ThreadPoolExecutor(4) as ex:
            fe, fr = ex.submit(build.engine), ex.submit(build.replayer)
            confs = sorted({(r.crate, r.config) for r in runs})
            fh = {c: ex.submit(build.harness, pid.lower(), c[1], thorough, c[0]) for c in confs}
            eng = fe.result(); fr.result()
            libs, unbuilt = {}, {}
            for c, f in fh.items():
                try:
                    libs[c] = f.result()
                except build.BuildError as e:
                    # (the doubles of the aarch64 intrinsics may lack one)
                    if c[1] != "neon":
                        raise
                    unbuilt[c] = str(e)[:1500]
    except build.BuildError as e:
        say("ERROR: " + str(e))
        return 2
    t_build = time.time() - t0

    kf_path = os.path.join(VERIF, "known-findings.json")
    known = [k for k in (json.load(open(kf_path)) if os.path.exists(kf_path) else {"findings": []})["findings"] if k["property"] == pid]

    tot, funcs, per_entry, samples, problems, violations, known_hit = {}, {}, [], [], [], [], []
    validated = 0
    exhaustive = True
    # a check has to answer in time: entries share what is left of the budget
    budget = float(os.environ.get("VERIF_BUDGET") or (780 if not thorough else 3300))
    for n, r in enumerate(runs):
        tag = "%s-%s" % (r.entry, r.config)
        if (r.crate, r.config) in unbuilt:
            exhaustive = False
            per_entry.append({"entry": r.entry, "config": r.config, "bound": r.bound, "not_explored": {"does not build": unbuilt[(r.crate, r.config)]}})
            continue
        ll, so = libs[(r.crate, r.config)]
        out = os.path.join(case_dir, tag + ".json")
        left = budget - (time.time() - t0)
        # later entries keep a share: no entry may take all that is left
        fair = max(10.0, left / (len(runs) - n) * 3, left - 60.0 * (len(runs) - n - 1))
        limit = max(5, int(min(r.limit[1 if thorough else 0], fair, max(left, 5))))
        if violations:
            limit = min(limit, 20)
        cmd = [eng, "--ll", ll, "--entry", r.entry, "--out", out, "--jobs", str(JOBS), "--split", "24",
               "--time-limit", str(limit), "--max-steps", str(r.steps), "--witness-every", "101"]
        if not known:
            cmd += ["--after-violation", "10"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0 or not os.path.exists(out):
            problems.append("%s: executor failed (%d): %s" % (tag, p.returncode, p.stdout[-1500:]))
            continue
        d = json.load(open(out))
        st = d["stats"]
        for k, v in st.items():
            if k in ("max_depth", "max_query_seconds"):
                tot[k] = max(tot.get(k, 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
        for f, n in d["functions"].items():
            funcs[f] = funcs.get(f, 0) + n
        errs = {k: v[0] for k, v in d["errors"].items()}
        if errs:
            exhaustive = False
        per_entry.append({"entry": r.entry, "config": r.config, "bound": r.bound, "paths": st["paths"], "asserts": st["asserts"],
                          "solver_queries": st["solver_queries"], "solver_seconds": round(st["solver_seconds"], 3), "seconds": d["seconds"],
                          "reach": d["reach"], "not_explored": errs})
        if st["paths"] == 0 or (st["asserts"] == 0 and not d["reach"]):
            if not d["violations"]:
                problems.append("%s: nothing was explored: %s" % (tag, json.dumps(d["errors"])[:600]))
        # violations
        seen = {}
        for i, v in enumerate(d["violations"]):
            if seen.get(v["key"], 0) >= 2:
                continue
            seen[v["key"]] = seen.get(v["key"], 0) + 1
            case = os.path.join(case_dir, "%s-%d.case" % (tag, i))
            with open(case, "w") as f:
                f.write("# property %s entry %s config %s%s\n# %s: %s\n# replay: %s %s %s %s\n" % (
                    pid, r.entry, r.config, " thorough" if thorough else "", v["kind"], v["msg"].replace("\n", " "),
                    os.path.join(build.WORK, "replay"), so, r.entry, case))
                f.write(v["inputs"])
            verdict = replay_native(so, r.entry, [case]).get(case, ("UNREADABLE", []))[0]
            ok, how = reproduced(v, verdict, so, r.entry, case)
            if not ok:
                problems.append("%s: a counterexample (%s: %s) did not reproduce natively (%s); case %s" % (tag, v["kind"], v["msg"], how, case))
                continue
            sig = "%s|%s" % (r.entry, v["key"])
            k = next((k for k in known if re.fullmatch(k["match"], sig)), None)
            if k:
                if k not in known_hit:
                    known_hit.append(k)
                    say("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                continue
            violations.append((tag, v, how, case, so, r.entry))
        # differential validation of the executor on sampled paths
        ws = d["witnesses"][:150]
        cases = []
        for i, w in enumerate(ws):
            c = os.path.join(case_dir, "%s-w%d.case" % (tag, i))
            open(c, "w").write(w["inputs"])
            cases.append(c)
        got = replay_native(so, r.entry, cases) if cases else {}
        for c, w in zip(cases, ws):
            v = got.get(c)
            if v is None or not v[0].startswith("OK") or v[1] != w["obs"].split():
                # a bug in the code may show natively on a path of another violation
                if v and v[0].startswith(("SIGNAL", "ASSERT")) and d["violations"]:
                    continue
                problems.append("%s: executor and compiled code disagree on %s: %s vs %s" % (tag, describe(w["inputs"])[:300], w["obs"][:200], v))
            else:
                validated += 1
                os.unlink(c)
        for w in ws[:: max(1, len(ws) // 3)][:3]:
            samples.append("%s: %s" % (tag, describe(w["inputs"])[:240]))
        say("%-18s %-6s paths %-8d queries %-7d solver %.1fs total %.1fs%s" % (
            r.entry, r.config, st["paths"], st["solver_queries"], st["solver_seconds"], d["seconds"], (" not explored: " + json.dumps(errs)[:300]) if errs else ""))

    target = sorted(f for f in funcs if "tmi" in f or f.startswith("<tmi"))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("paths", 0)), "transitions": int(tot.get("symbolic_branches", 0)),
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "exhaustive": bool(exhaustive and not problems),
            "explanation": "states = symbolic paths decided (each stands for all inputs satisfying its path condition), transitions = branches on symbolic data; exhaustive means: every path within the bounds was decided",
            "entries": per_entry,
            "functions_encoded": target, "other_functions_encoded": len(funcs) - len(target),
            "instructions_executed": int(tot.get("instructions", 0)),
            "assertions_checked": int(tot.get("asserts", 0)),
            "assertions_decided_by_solver": int(tot.get("asserts_solver", 0)),
            "branches_decided_by_exact_byte_domains": int(tot.get("domain_decisions", 0)),
            "domain_decisions_crosschecked_with_solver": int(tot.get("crosschecks", 0)),
            "solver": "z3 4.8.12", "solver_queries": int(tot.get("solver_queries", 0)), "solver_sat": int(tot.get("solver_sat", 0)),
            "solver_unsat": int(tot.get("solver_unsat", 0)), "solver_unknown": int(tot.get("solver_unknown", 0)),
            "solver_seconds": round(tot.get("solver_seconds", 0), 3), "max_query_seconds": tot.get("max_query_seconds", 0),
            "build_seconds": round(t_build, 1),
            "known_findings_hit": [k["what"] for k in known_hit], "problems": problems,
        },
        "assumptions": assumptions + [
            "inputs outside the bounds listed per entry are not covered",
            "LLVM IR emitted by rustc (opt-level 2, overflow checks and debug assertions on) is what is encoded; poison-generating flags are ignored",
            "allocation never fails; addresses are concrete with malloc's 16-byte alignment",
        ],
        "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for tag, v, how, case, so, entry in violations[:8]:
        say("%s: %s: %s [native: %s] %s" % (tag, v["kind"], v["msg"][:300], how, native_message(so, entry, case)))
        say("  inputs: " + describe(v["inputs"])[:600])
        say("VIOLATION property=%s replay=%s" % (pid, case))
    for p in problems[:10]:
        say("PROBLEM: " + p)
    if violations:
        return 1
    if problems:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
