"""Rewrite the table of planted bugs at the end of DESIGN.md."""

import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "| planted bug | check that catches it | what it needs |\n|---|---|---|\n"
MISSED = set("mean-near-one empty-label bessel-clamped one-start-identity return-variance-identity".split())
path = os.path.join(V, "DESIGN.md")
text = open(path).read().split(HEAD)[0]
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append((m["property"], f"| {d} | {m['property']}{' (missed first)' if d in MISSED else ''} | {m['needs']} |"))
open(path, "w").write(text + HEAD + "\n".join(r for _, r in sorted(rows)) + "\n")
