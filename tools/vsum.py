#!/usr/bin/env python3
"""Compact listing of a check's violations: vsum.py ID"""
import subprocess, sys, json, glob, os, shutil
e = dict(os.environ, BONVERIF_EVIDENCE="/tmp/vsum.ev")
r = subprocess.run(["python3", "/verif/engine/check.py", sys.argv[1], "quick"], env=e, capture_output=True, text=True)
by = {}
for f in sorted(glob.glob("/tmp/vsum.ev/*-violation-*.json"), key=lambda x: int(x.split("-")[-1][:-5])):
    v = json.load(open(f)); by.setdefault((v["rule"], v["file"].split("/")[-1], v["function"].replace("Bonmin::", "")), []).append((v["line"], v["construct"]))
for k, v in by.items(): print(k[0], k[1], k[2], ";".join("%s:%s" % x for x in v))
print("\n".join(r.stdout.strip().split("\n")[-1:])); print(r.stderr[-600:])
shutil.rmtree("/tmp/vsum.ev", ignore_errors=True)
