#!/usr/bin/env python3
"""try.py PATCH|- ID...: run checks on a scratch copy of /repo/src with PATCH applied."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tmp = "/tmp/bontry%d" % os.getpid()
os.makedirs(tmp + "/repo")
try:
    shutil.copytree("/repo/src", tmp + "/repo/src")
    if sys.argv[1] != "-":
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + tmp + "/repo", os.path.abspath(sys.argv[1])], cwd="/")
        if r.returncode:
            r = subprocess.run(["patch", "-p1", "-i", os.path.abspath(sys.argv[1])], cwd=tmp + "/repo"); assert r.returncode == 0
    for i in sys.argv[2:]:
        e = dict(os.environ, BONVERIF_REPO=tmp + "/repo", BONVERIF_EVIDENCE=tmp + "/ev")
        r = subprocess.run([sys.executable, V + "/engine/check.py", i], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("== %s exit %d" % (i, r.returncode)); print(r.stdout[-3000:])
finally:
    shutil.rmtree(tmp, ignore_errors=True)
