"""Shows that a rule is alive: applies small violating edits (must be reported)
and small behaviour-preserving edits (must stay quiet) to a scratch copy of the
sources and runs the same check on the copy.  Only the thorough tier uses it.
Edits live in engine/selftest/<ID>.json; an edit whose text is no longer in the
tree is skipped."""
import json, os, shutil, subprocess, sys, tempfile
from extract import REPO, VERIF, Broken
HERE = os.path.dirname(os.path.abspath(__file__))

def run(prop, stop=True):
    p = os.path.join(HERE, "selftest", prop + ".json")
    out = {"violating_edits": 0, "reported": 0, "neutral_edits": 0, "quiet": 0, "skipped": 0}
    if not os.path.exists(p) or os.environ.get("BONVERIF_SELFTEST"): return out
    tmp = tempfile.mkdtemp(prefix="bonself")
    import queue
    free = queue.Queue()
    for i in range(4): free.put(os.path.join(tmp, str(i)))
    def one(i, e):
        d = free.get()
        try: return edit(d, e)
        finally: free.put(d)
    def edit(d, e):
        f = os.path.join(d, "repo", e["file"]); g = os.path.join(REPO, e["file"])
        src = open(g).read() if os.path.exists(g) else ""
        if src.count(e["old"]) != 1: return e, None, src.count(e["old"])
        if not os.path.isdir(d): shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "repo", "src"))
        open(f, "w").write(src.replace(e["old"], e["new"]))
        env = dict(os.environ, BONVERIF_REPO=os.path.join(d, "repo"), BONVERIF_SELFTEST="1", BONVERIF_EVIDENCE=os.path.join(d, "ev"))
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        open(f, "w").write(src)
        return e, r, 1
    try:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex: res = list(ex.map(one, *zip(*enumerate(json.load(open(p))))))
        for e, r, k in res:
            if r is None:
                out["skipped"] += 1
                if not stop: print("SKIP (%d matches) %s" % (k, e.get("name", e["old"][:60])))
                continue
            bad = e["expect"] == "violation"
            out["violating_edits" if bad else "neutral_edits"] += 1
            if bad and r.returncode == 1: out["reported"] += 1
            elif not bad and r.returncode == 0: out["quiet"] += 1
            elif not stop: print("MISS %s: exit %d\n%s" % (e.get("name", e["new"][:60]), r.returncode, r.stdout[-1500:]))
            else: raise Broken("self-test: edit '%s' gave exit %d\n%s" % (e.get("name", e["new"][:60]), r.returncode, r.stdout[-600:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out

if __name__ == "__main__":
    for x in sys.argv[1:]: print(x, run(x, False))
