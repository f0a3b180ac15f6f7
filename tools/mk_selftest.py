#!/usr/bin/env python3
"""Builds engine/selftest/<ID>.json from tools/selftests/<ID>.txt:
blocks  '@@ bad|ok name | file' / old text / '--' / new text."""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in sorted(glob.glob(V + "/tools/selftests/*.txt")):
    out = []
    for b in re.split(r"^@@ ", open(p).read(), flags=re.M)[1:]:
        head, body = b.split("\n", 1)
        kind, rest = head.split(" ", 1)
        name, f = [x.strip() for x in rest.split("|")]
        old, new = body.split("\n--\n") if "\n--\n" in body else body.split("--\n", 1)
        out.append({"name": name, "file": f, "old": old.strip("\n"), "new": new.strip("\n"), "expect": "violation" if kind == "bad" else "quiet"})
    json.dump(out, open(V + "/engine/selftest/" + os.path.basename(p)[:-4] + ".json", "w"), indent=1)
    print(os.path.basename(p), len(out))
