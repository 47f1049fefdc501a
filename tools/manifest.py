#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from spec import PROPS, NA, NOTES

ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the LLVM IR of the real code with an SMT solver (z3), bounded; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": NOTES.get(i) or "Every path of the compiled crate (std included) over the symbolic bytes and choices of the entries listed in the evidence is decided by the solver; outside those bounds nothing is claimed. Trusts rustc/LLVM, the executor's IR semantics (cross-checked natively on sampled witnesses in every run), z3 and the harness's reference.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 build.py setup",
     "hooks": {"guard": "tmi_verif", "enable": "none needed: the checks use the public interface and replace dependencies by doubles", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. All checks share build.py (rebuilds from /repo's working tree), symex/ (the symbolic executor) and check.py."}
if os.path.exists(os.path.join(V, "tools", "hook_commits")):
    m["hooks"]["source_commits"] = open(os.path.join(V, "tools", "hook_commits")).read().split()
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
