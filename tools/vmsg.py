#!/usr/bin/env python3
"""vmsg.py ID REGEX [n]: messages and path tails of matching violations"""
import subprocess, sys, json, glob, os, shutil, re
e = dict(os.environ, BONVERIF_EVIDENCE="/tmp/vmsg.ev")
r = subprocess.run(["python3", "/verif/engine/check.py", sys.argv[1], "quick"], env=e, capture_output=True, text=True)
k = int(sys.argv[3]) if len(sys.argv) > 3 else 6
for f in sorted(glob.glob("/tmp/vmsg.ev/*-violation-*.json"), key=lambda x: int(x.split("-")[-1][:-5])):
    v = json.load(open(f)); s = "%s:%s %s | %s | %s" % (v["file"].split("/")[-1], v["line"], v["function"], v["construct"], v["message"])
    if re.search(sys.argv[2], s):
        print(s)
        for p in v["path"][-k:]: print("     " + str(p)[:150])
shutil.rmtree("/tmp/vmsg.ev", ignore_errors=True)
