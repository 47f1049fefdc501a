#!/usr/bin/env python3
"""try.py PROP CONFIG [ENTRY...]: runs entries of an already built harness and
prints a summary (a development aid; the checks use check.py)."""
import json, subprocess, sys, re, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from check import describe
prop, conf = sys.argv[1:3]
d0 = "/verif/work/bin/%s-%s" % (prop, conf)
ents = sys.argv[3:] or sorted(set(re.findall(r"^define .*@(%s_\w+)\(" % prop.split("-")[0], open(d0 + "/h.ll").read(), re.M)))
for e in ents:
    out = "/tmp/try.json"
    if os.path.exists(out): os.unlink(out)
    p = subprocess.run(["/verif/symex/target/release/symex", "--ll", d0 + "/h.ll", "--entry", e, "--out", out, "--jobs", "8", "--split", "24", "--time-limit", os.environ.get("TL", "120"), "--witness-every", "1000"], capture_output=True, text=True)
    if not os.path.exists(out):
        print(e, "FAILED", p.returncode, p.stderr[-500:]); continue
    d = json.load(open(out)); s = d["stats"]
    print("%-18s %6.1fs paths %-8d inf %d asserts %d q %d (%.1fs max %.2f) unk %d reach %s" % (e, d["seconds"], s["paths"], s["infeasible"], s["asserts"], s["solver_queries"], s["solver_seconds"], s["max_query_seconds"], s["solver_unknown"], d["reach"] if len(d["reach"]) < 12 else len(d["reach"])))
    for k, v in list(d["errors"].items())[:4]: print("   ERR", v[0], k[:300], str(v[1])[:400])
    seen = set()
    for v in d["violations"]:
        if v["key"] in seen: continue
        seen.add(v["key"]); print("   VIOL", v["kind"], v["msg"][:250], "|", describe(v["inputs"])[:250]); print("       ", v["trace"][-4:] if isinstance(v["trace"], list) else v["trace"])
