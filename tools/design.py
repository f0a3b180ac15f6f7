#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design.md (frame) and tools/design/<ID>.md (one per property)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = {x["property"]: x["reason"] for x in json.load(open(os.path.join(V, "MANIFEST.json")))["not_applicable"]}
out = []
for p in props:
    out.append("### %s – %s" % (p["id"], p["title"]))
    f = os.path.join(V, "tools/design", p["id"] + ".md")
    if p["id"] in na: out.append("*Not applicable*: " + na[p["id"]])
    if os.path.exists(f): out.append(open(f).read().strip())
    out.append("")
rows = []
S = os.path.join(V, "seeded")
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m.get("caught", "yes")))
s = open(os.path.join(V, "tools/design.md")).read()
s = s.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "| change | property | what it breaks | caught by the property's check |\n|---|---|---|---|\n" + "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
