#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  -- decides one property statically."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from extract import Broken, VERIF, REPO
from model import Program, rel

class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.viol = []          # dicts
        self.cov = {"obligations": 0, "functions_analysed": 0, "paths": 0}
        self.samples = []
        self.rules = []
        self.funcs = set()
        self.assumptions = []
        self.notes = []
    def rule(self, name, text): self.rules.append({"rule": name, "text": text})
    def ob(self, k=1): self.cov["obligations"] += k
    def count(self, key, k=1): self.cov[key] = self.cov.get(key, 0) + k
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    def ran(self, ip):
        self.funcs |= ip.funcs_seen; self.cov["paths"] += ip.paths
        if ip.widened: self.count("widenings", ip.widened)
    def v(self, rule, f, line, construct, msg, path=None):
        """construct: stable identification of what fails (no line numbers)."""
        fn = f["fn"] if isinstance(f, dict) else str(f)
        fl = rel(f) if isinstance(f, dict) else ""
        key = (rule, fn, construct)
        for x in self.viol:
            if (x["rule"], x["function"], x["construct"]) == key: return
        self.viol.append({"rule": rule, "file": fl, "function": fn, "line": line, "construct": construct, "message": msg, "path": path or []})
    def need(self, cond, msg):
        if not cond: raise Broken(msg)
    def atleast(self, what, n, mn):
        self.cov[what] = n
        if n < mn: raise Broken("only %d %s found (at least %d confirmed when the rule was written): the rule may match nothing" % (n, what, mn))

def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                d = json.loads(l)
                if d["property"] == prop: out.append(d)
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    R = Report(prop, tier)
    try:
        P = Program.load()
        mod = importlib.import_module("rules." + prop.lower())
        mod.run(P, R)
        if tier == "thorough" and getattr(mod, "NDEBUG", True):
            # a second resolution of the program, as release builds see it
            R2 = Report(prop, tier)
            P2 = Program.load(("-DNDEBUG",))
            mod.run(P2, R2)
            seen = {(v["rule"], v["function"], v["construct"]) for v in R.viol}
            for v in R2.viol:
                if (v["rule"], v["function"], v["construct"]) not in seen:
                    v["message"] += " [with -DNDEBUG]"; R.viol.append(v)
            R.cov["ndebug_obligations"] = R2.cov["obligations"]
        if tier == "thorough":
            import selftest
            R.cov["selftest"] = selftest.run(prop)
        R.cov["functions_analysed"] = max(len(R.funcs), R.cov["functions_analysed"])
        if R.cov["obligations"] < 1: raise Broken("no obligations were generated")
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e)); sys.exit(3)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % prop); sys.exit(3)
    kf = known_findings(prop)
    new, old = [], []
    for v in R.viol:
        hit = [k for k in kf if k["rule"] == v["rule"] and k["function"] == v["function"] and k["construct"] == v["construct"]]
        (old if hit else new).append(v)
    EV = os.environ.get("BONVERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(EV, exist_ok=True)
    R.cov["explanation"] = "Static analysis of %d translation units of /repo's working tree. %s" % (len(P.units), " ".join("[%s] %s" % (r["rule"], r["text"]) for r in R.rules))
    R.cov["units"] = len(P.units)
    R.cov["samples"] = R.samples
    R.cov["discharged"] = R.cov["obligations"] - len(R.viol)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": R.cov, "wall_s": round(time.time() - t0, 2), "assumptions": R.assumptions,
          "violations": len(new)}
    evp = os.path.join(EV, prop + ".json")
    json.dump(ev, open(evp, "w"), indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s: %s [%s] %s" % (prop, v["function"], v["construct"], v["rule"], v["message"]))
    rc = 0
    for i, v in enumerate(new):
        rp = os.path.join(EV, "%s-violation-%d.json" % (prop, i + 1))
        json.dump(v, open(rp, "w"), indent=1)
        print("%s:%s: in %s: [%s] %s" % (v["file"], v["line"], v["function"], v["rule"], v["message"]))
        for s in v["path"][-14:]: print("    " + s)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    print("%s %s: %d obligations, %d functions, %d violation(s), %d known, %.1fs" % (prop, tier, R.cov["obligations"], R.cov["functions_analysed"], len(new), len(old), time.time() - t0))
    sys.exit(rc)

if __name__ == "__main__":
    main()
