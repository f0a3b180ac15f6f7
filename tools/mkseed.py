#!/usr/bin/env python3
"""mkseed.py DIR FILE [-a] < 'OLD\\n====\\nNEW': writes seeded/DIR/patch.diff (several edits: pass -a to append); /repo is not touched"""
import difflib, sys
d, p = sys.argv[1], sys.argv[2]
a, b = sys.stdin.read().split("\n====\n"); b = b.rstrip("\n")
s = open("/repo/" + p).read(); assert s.count(a) == 1, s.count(a)
t = s.replace(a, b)
open("/verif/seeded/%s/patch.diff" % d, "a" if "-a" in sys.argv else "w").write("diff --git a/%s b/%s\n" % (p, p) + "".join(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n" for l in difflib.unified_diff(s.splitlines(True), t.splitlines(True), "a/" + p, "b/" + p)))
