#!/usr/bin/env python3
"""Rewrite the table of seeded bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
H = "## Seeded bugs (seeded/<id>) and the checks that catch them"
d = (V / "DESIGN.md").read_text()
head = d[:d.index(H)]
extra = {}
f = V / "tools" / "caught.json"
if f.exists():
    extra = json.loads(f.read_text())
rows = []
for m in sorted((V / "seeded").glob("*/meta.json")):
    j = json.loads(m.read_text())
    c = extra.get(m.parent.name, j["property"])
    cl = lambda s: re.sub(r"\s+", " ", s).replace("|", "/")
    rows.append((j["property"], m.parent.name, cl(j["what_it_breaks"]), cl(j["needs"]), c))
rows.sort()
out = [H, "", "Each was written from the property text, confirmed in a scratch copy (builds, stable tests pass, demo 0 -> nonzero).",
       "'Caught by' lists the checks run against it that report it (its own property's check first).", "",
       "| bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
out += [f"| {i} | {p} | {w} | {n} | {c} |" for p, i, w, n, c in rows]
(V / "DESIGN.md").write_text(head + "\n".join(out) + "\n")
