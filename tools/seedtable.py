#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/ and the logs of seedcheck.sh."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| bug | needs | reported by |", "|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    p = os.path.join(V, "work", "seedlogs", i)
    e = re.search(r"VIOLATION property=(\S+) replay=\S*/([a-z0-9_]+-[a-z0-9]+)-\d+\.case", open(p).read()) if os.path.exists(p) else None
    rows.append("| %s | %s | %s |" % (i, m["needs"], ("%s: %s" % (e.group(1), e.group(2))) if e else "-"))
rows.append("<!-- /seeds -->")
d = os.path.join(V, "DESIGN.md")
s = open(d).read()
t = "\n".join(rows)
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S) if "<!-- seeds -->" in s else s.replace("SEEDTABLE", t)
open(d, "w").write(s)
