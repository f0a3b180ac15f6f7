"""C17 branching never discards a part that was not proved empty."""
from .common import *
from .roles import Flow

NDEBUG = True
SBS = "Bonmin::StrongBranchingSolver"
STATUS = "Bonmin::TNLPSolver::ReturnStatus"
DBLMAX = ("i", ("g", "COIN_DBL_MAX"))

def S(*a): return ("call", "c17", tuple(a), (), ())
def is_s(v, what=None): return isinstance(v, tuple) and len(v) > 2 and v[0] == "call" and v[1] == "c17" and (what is None or v[2][0] == what)
def clean(v):
    """Identity of an object: forget the epochs."""
    if not isinstance(v, tuple) or not v: return v
    if v[0] == "i" and len(v) > 2: return ("i", clean(v[1]))
    if v[0] == "pure": return ("pure", v[1], tuple(clean(x) for x in v[2][:1])) + tuple(clean(x) for x in v[3:4])
    if v[0] == "call" and v[1] == "c17": return v
    if v[0] in ("addr", "lref", "obj") and len(v) == 2: return clean(v[1])
    return tuple(clean(x) for x in v)
def fact_eq(ip, st, v, n):
    """Is v == n known on this path (True, False or None)?"""
    for a in (("eq", v, C(n)), ("eq", C(n), v)):
        if a in st.facts: return st.facts[a]
    if n == 1 or n == 0:
        pass
    for a, b in st.facts.items():
        if b and a[0] == "eq" and v in a[1:]:
            o = a[2] if a[1] == v else a[1]
            if o[0] == "c": return o[1] == n
    return None

# ---------------------------------------------------------------- trial result
class HU(EvHooks):
    rich = True
    def __init__(self, P):
        EvHooks.__init__(self, P, relevant=self.rel, max_inline=4)
        self.keep = lambda a: mentions(a, lambda x: x[0] == "call" and x[1] == "c17")
    def rel(self, n): return n["k"] == "call" and n.get("name") in ("isProvenPrimalInfeasible", "isProvenOptimal", "updateInformation") or n["k"] == "return" or n["k"] == "assign" and any(x["k"] == "mem" and x["f"] == "statuses_" for x in walk(n["a"]))
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        nm = n.get("name")
        if nm in ("isProvenPrimalInfeasible", "isProvenOptimal", "isAbandoned", "isIterationLimitReached", "isDualObjectiveLimitReached"): return [(st, S("q", nm))]
        if nm == "updateInformation" and n.get("cls") == "OsiHotInfo":
            st = st.copy(); st.ts["st"] = S("base"); st.ts["upd"] = True
            return [(st, S("base"))]
        if "CoinMessageHandler" in (n.get("cls") or ""): return [(st, obj or UNK)]
        return None
    def assign(self, ip, st, n, loc, val):
        if loc[0] == "e" and mentions(loc[1], lambda x: x[0] == "f" and len(x) == 3 and x[2] == "statuses_"): st.ts["st"] = val

def trial(P, R):
    fs = [f for f in P.F.values() if f["name"] == "updateInformation" and f.get("cls") and "OsiHotInfo" in P.bases(f["cls"]) and f.get("b") is not None]
    R.need(fs, "HotInfo::updateInformation")
    for f in fs:
        h = HU(P); ip = Interp(P, h); res = ip.run(f, St()); R.ran(ip); n = 0
        for k, st, v in res:
            if k != "ret": continue
            n += 1; R.ob(2)
            inf, opt = ip.truth(st, S("q", "isProvenPrimalInfeasible")), ip.truth(st, S("q", "isProvenOptimal"))
            for what, x in (("returned", v), ("recorded", st.ts.get("st", UNK))):
                if not st.ts.get("upd") and x[0] != "c": R.v("C17.trial", f, f["l"], what, "the status %s does not come from the trial" % what, st.path()); continue
                if x[0] == "c" and x[1] != 1: continue
                if x[0] == "c" or x == S("base"):
                    # the base class calls everything infeasible that is neither optimal nor at an iteration limit
                    if inf is True or opt is True and x == S("base"): continue
                    R.v("C17.trial", f, f["l"], what, "the status %s may say infeasible although the trial was neither proved infeasible nor solved" % what, st.path())
                else: R.v("C17.trial", f, f["l"], what, "the status %s cannot be recognised (%s)" % (what, str(x)[:60]), st.path())
        R.atleast("outcomes of a trial", n, 3)

# ---------------------------------------------------------------- strong branching
SOLVES = {"solveFromHotStart", "resolve", "initialSolve"}
class HB(EvHooks):
    rich = scoped = True
    def __init__(self, P, f):
        EvHooks.__init__(self, P, relevant=self.rel, max_inline=4, cap=400)
        self.f = f
        self.keep = lambda a: mentions(a, lambda x: x[0] == "call" and x[1] == "c17") or mentions(a, lambda x: x[0] == "c") and mentions(a, lambda x: x[0] == "e")
        self.outs = set()
        for n in walk(f["b"]):
            if n["k"] == "return" and n.get("e") is not None and peel(n["e"])["k"] == "var": self.outs.add(peel(n["e"])["id"])
        self.upds = []; self.rets = []; self.bad = []; self.restores = 0; self.brs = 0
    def rel(self, n):
        if n["k"] == "call": return n.get("name") in SOLVES | {"branch", "updateInformation", "setColLower", "setColUpper", "setColBounds", "boundBranch"}
        if n["k"] == "assign": a = peel(n["a"]); return a["k"] == "var" and a["id"] in self.outs
        return n["k"] == "return"
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        nm = n.get("name"); o = clean(obj) if obj is not None else None
        if nm == "clone": return [(st, S("clone", ip.site(n)))]
        if nm in ("getRowCutDebugger", "timeRemaining"): return None
        if nm == "boundBranch": return [(st, S("bound"))]
        if nm == "branch" and args:
            st = st.copy(); s = clean(ip.val_of(st, args[0])); self.brs += 1
            if st.ts.get("dirty") == s and s[0] == "p": self.bad.append((n, st, "restore", "the second side is tried on top of the bounds of the first one"))
            st.ts["on"] = s; st.ts.pop("solved", None)
            if s[0] == "p": st.ts["dirty"] = s
            st.note(n.get("l"), "a side is tried")
            return [(st, UNK)]
        if nm in SOLVES and obj is not None and "OsiSolverInterface" in {n.get("cls")} | set(self.P.bases(n.get("cls") or "")):
            st = st.copy(); st.ts["solved"] = o
            return [(st, ("void",))]
        if nm == "updateInformation" and len(args) == 3:
            st = st.copy(); s = clean(ip.val_of(st, args[0])); i = st.ts.get("n", 0)
            self.upds.append((n, st.copy(), s, st.ts.get("on"), st.ts.get("solved")))
            st.ts["n"] = i + 1
            x = S("side", i)
            for q in [q for q in st.facts if mentions(q, lambda y: y == x)]: del st.facts[q]
            st.ts.pop("on", None)
            return [(st, x)]
        if nm in ("setColLower", "setColUpper") and len(args) == 2:
            st = st.copy(); i, v = ip.val_of(st, args[0]), ip.val_of(st, args[1])
            st.ts["r" + nm[6]] = (i, clean(v))
            return [(st, ("void",))]
        if nm == "setColBounds" and len(args) == 3:
            st = st.copy(); i = ip.val_of(st, args[0])
            st.ts["rL"] = (i, clean(ip.val_of(st, args[1]))); st.ts["rU"] = (i, clean(ip.val_of(st, args[2])))
            return [(st, ("void",))]
        if nm in ("markHotStart", "unmarkHotStart", "getIntParam", "setIntParam", "getIterationCount", "CoinCpuTime", "fflush"): return [(st, ("call", nm, ip.site(n), (), ()))]
        if nm in ("CoinCopyOfArray",): return [(st, ("call", "copyof", (self.label(ip.val_of(st, args[0])),), (), ()))]
        return None
    def label(self, v):
        return "L" if mentions(v, lambda x: x[0] == "f" and len(x) == 3 and x[2] == "lower_" or x[0] == "pure" and str(x[1]).endswith("getColLower")) else "U" if mentions(v, lambda x: x[0] == "f" and len(x) == 3 and x[2] == "upper_" or x[0] == "pure" and str(x[1]).endswith("getColUpper")) else "?"
    def saved(self, v, k):
        return mentions(v, lambda x: x[0] == "call" and x[1] == "copyof" and x[2] == (k,))
    def restoring(self, n): return any(m["k"] == "call" and (m.get("name") in ("setColLower", "setColUpper", "setColBounds")) for m in walk(n)) and not any(m["k"] == "call" and m.get("name") in SOLVES for m in walk(n))
    def trialloop(self, n): return any(m["k"] == "call" and m.get("name") == "updateInformation" for m in walk(n)) or any(self.contains(None, g) for m in walk(n) if m["k"] == "call" for g in [self.P.target(m)] if g is not None and any(x["k"] == "call" and x.get("name") == "updateInformation" for x in walk(g.get("b"))))
    def head(self, ip, st, n):
        if self.trialloop(n): st.ts["n"] = 0
    def loop(self, ip, st, n):
        if self.restoring(n): st.ts["all"] = True; st.ts.pop("rL", None); st.ts.pop("rU", None)
    def iter_end(self, ip, st, n):
        if self.restoring(n):
            for k in "LU":
                r = st.ts.pop("r" + k, None)
                ok = r is not None and self.saved(r[1], k)
                if not ok: ok = any(b and a[0] == "eq" and self.saved(a, k) for a, b in st.facts.items())
                if not ok: st.ts["all"] = False
        elif self.trialloop(n): st.ts["n"] = 0; st.ts.pop("on", None); st.ts.pop("solved", None)
    def loop_exit(self, ip, sts, n):
        if self.restoring(n):
            for s in sts:
                full = any(a[0] == "lt" and b is False and mentions(a[2], lambda x: x[0] in ("pure", "call") and isinstance(x[1], str) and x[1].endswith("::getNumCols")) for a, b in s.facts.items())
                if s.ts.pop("all", False) and full: s.ts.pop("dirty", None); self.restores += 1
                s.ts.pop("rL", None); s.ts.pop("rU", None)
        return sts
    def verdict(self, ip, st, n, val): self.rets.append((n, st.copy(), val))
    def assign(self, ip, st, n, loc, val):
        if loc[0] == "v" and loc[2] in self.outs and len(ip.fstack) <= 1: self.verdict(ip, st, n, val)
    def ret(self, ip, st, n, val):
        if len(ip.fstack) <= 1 and n.get("e") is not None and peel(n["e"])["k"] != "var": self.verdict(ip, st, n, val)

def strong(P, R):
    fs = [f for f in P.F.values() if f["name"] == "doStrongBranching" and f.get("b") is not None]
    R.need(fs, "doStrongBranching")
    for f in fs:
        h = HB(P, f); ip = Interp(P, h); res = ip.run(f, St()); R.ran(ip)
        R.atleast("evaluations of a side", len(h.upds), 2); R.atleast("codes returned", len(h.rets), 3)
        R.need(h.restores, "no loop that puts back the bounds after a trial was recognised")
        for n, st, c, m in h.bad: R.ob(); R.v("C17.strong", f, n.get("l"), c, m, st.path())
        for n, st, s, on, sol in h.upds:
            R.ob()
            if on is None or sol is None: R.v("C17.strong", f, n.get("l"), "trial", "a side is judged without having been branched on and solved", st.path())
            elif not (on == s == sol): R.v("C17.strong", f, n.get("l"), "solver", "the solver judged is not the one that was branched and solved", st.path())
        for n, st, v in h.rets:
            R.ob()
            if v[0] != "c": R.v("C17.strong", f, n.get("l"), "code", "the code %s cannot be decided" % str(v)[:60], st.path()); continue
            e = [fact_eq(ip, st, S("side", i), 1) is True for i in (0, 1)]
            if v[1] == -1 and not all(e): R.v("C17.strong", f, n.get("l"), "-1", "the node is declared infeasible although not both sides are", st.path())
            if v[1] in (1, 2) and not any(e): R.v("C17.strong", f, n.get("l"), "1", "a variable is declared fixable although no side is infeasible", st.path())
        for k, st, v in res:
            if k == "ret":
                R.ob()
                if st.ts.get("dirty"): R.v("C17.strong", f, f["l"], "left", "the bounds of a trial are left in the solver", st.path())

# ---------------------------------------------------------------- selection
class HC(EvHooks):
    rich = scoped = True
    def __init__(self, P, f):
        EvHooks.__init__(self, P, relevant=self.rel, max_inline=4, cap=400, noinline=("Bonmin::BonChooseVariable::doStrongBranching",))
        self.f = f; self.fixes = []; self.ways = []; self.idx = []; self.pairs = []; self.brs = []
        self.keep = lambda a: mentions(a, lambda x: x[0] == "call" and x[1] == "c17") or about_fields("numberUnsatisfied_", "fixVariables")(a)
    def rel(self, n):
        if n["k"] == "call": return n.get("name") in ("upStatus", "downStatus", "createBranch", "doStrongBranching", "whichObject", "branch")
        if n["k"] == "assign": a = peel(n["a"]); return a["k"] == "mem" and a["f"] in ("firstForcedObjectIndex_", "firstForcedWhichWay_") or a["k"] == "var" and a.get("t") == "int" and "eturn" in a["name"]
        return n["k"] == "return"
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        nm = n.get("name"); o = clean(obj) if obj is not None else None
        if nm in ("upStatus", "downStatus"): return [(st, S(nm, o))]
        if nm == "whichObject": return [(st, S("who", o))]
        if nm == "doStrongBranching":
            st = st.copy(); self.n = getattr(self, "n", 0) + 1
            return [(st, S("sb"))]
        if nm == "object" and args: return [(st, S("object", clean(ip.val_of(st, args[0]))))]
        if nm == "objects": return [(st, ("tmp", "objects"))]
        if nm == "createBranch" and len(args) == 3:
            way = ip.val_of(st, args[2]); self.fixes.append((n, st.copy(), self.which(o), way))
            return [(st, S("branch"))]
        if nm == "branch" and is_s(o, "branch"): self.brs.append((n, st.copy())); return [(st, UNK)]
        if nm == "message" or "CoinMessageHandler" in (n.get("cls") or "") or nm in ("preferredWay", "infeasibility", "upEstimate", "downEstimate", "setWhichWay", "upChange", "downChange", "maxminCrit", "CoinMin", "CoinMax"): return [(st, UNK if nm != "preferredWay" else ("call", nm, ip.site(n), (), ()))]
        return None
    def which(self, o):
        r = [None]
        def p(x):
            if is_s(x, "object"): r[0] = x[2][1]
            elif x[0] == "e" and mentions(x[1], lambda y: y == ("tmp", "objects")): r[0] = clean(x[2])
            return False
        mentions(o, p); return r[0]
    def assign(self, ip, st, n, loc, val):
        if loc[0] == "f" and loc[2] == "firstForcedWhichWay_": st.ts["way"] = clean(val); st.ts["pair"] = True; self.pair(ip, st, n)
        if loc[0] == "f" and loc[2] == "firstForcedObjectIndex_": st.ts["obj"] = clean(val); st.ts["pair"] = True; self.pair(ip, st, n)
    def pair(self, ip, st, n): st.ts["at"] = n.get("l")
    def iter_end(self, ip, st, n): self.flush(ip, st)
    def flush(self, ip, st):
        if st.ts.pop("pair", None): self.pairs.append((st.copy(), st.ts.get("obj"), st.ts.get("way"), st.ts.get("at")))
    def loop(self, ip, st, n): self.flush(ip, st)

def choose(P, R):
    fs = [f for f in P.F.values() if f["name"] == "chooseVariable" and f.get("b") is not None]
    R.need(fs, "chooseVariable")
    for f in fs:
        h = HC(P, f); ip = Interp(P, h); res = ip.run(f, St()); R.ran(ip)
        if not any(n["k"] == "call" and n.get("name") in ("doStrongBranching", "createBranch") for n in walk(f["b"])): R.count("chooseVariable without strong branching"); continue
        R.atleast("variables fixed", len(h.fixes), 2)
        def proved(st, obj, way):
            """the side opposite to `way` of the candidate with this object is infeasible"""
            q = "upStatus" if way == 0 else "downStatus"
            if not is_s(obj, "who"): return False
            return fact_eq(ip, st, S(q, obj[2][1]), 1) is True
        for n, st, obj, way in h.fixes:
            R.ob()
            if way[0] != "c": R.v("C17.choose", f, n.get("l"), "way", "a variable is fixed on a side that was not decided (%s)" % str(way)[:40], st.path())
            elif not proved(st, obj, way[1]): R.v("C17.choose", f, n.get("l"), "fix%d" % way[1], "the %s side of a variable is discarded although its trial was not found infeasible" % ("up", "down")[way[1] == 1], st.path())
        for n, st in h.brs:
            R.ob()
            if st.facts.get(("nz", ("p", f["p"][2]["name"]))) is not True: R.v("C17.choose", f, n.get("l"), "unasked", "bounds are changed although the caller did not ask for it", st.path())
        for st, obj, way, l in h.pairs:
            R.ob()
            if obj == C(-1) or obj is None and way == C(-1): continue
            if way is None or way[0] != "c" or way == C(-1) or not proved(st, obj, way[1]): R.v("C17.choose", f, l, "forced", "the forced branch does not keep the side that was not found infeasible", st.path())
        R.atleast("forced branches", len([1 for p in h.pairs if p[1] != C(-1)]), 2)
        for k, st, v in res:
            if k != "ret": continue
            R.ob()
            if v == C(1) and not zero(ip, st): R.v("C17.choose", f, f["l"], "1", "the node is declared satisfied although candidates are left", st.path())
            if v[0] == "c" and v[1] < 0 and not (fact_eq(ip, st, S("sb"), v[1]) is True or lt0(ip, st)): R.v("C17.choose", f, f["l"], "-1", "the node is declared infeasible although strong branching did not find it so", st.path())
            if v[0] != "c" and v != S("sb") and v[0] not in ("join", "lv"): R.count("returned codes of unknown form")
def zero(ip, st):
    for a, b in st.facts.items():
        if a[0] == "nz" and not b and mentions(a[1], lambda x: x[0] == "f" and x[2] == "numberUnsatisfied_"): return True
        if a[0] == "eq" and b and mentions(a, lambda x: x[0] == "f" and len(x) == 3 and x[2] == "numberUnsatisfied_") and mentions(a, lambda x: x == C(0)): return True
    return False
def lt0(ip, st): return any(a == ("lt", S("sb"), C(0)) and b for a, b in st.facts.items())

# ---------------------------------------------------------------- status of the trial solvers
class HS(EvHooks):
    rich = True
    QS = ("isProvenPrimalInfeasible", "isProvenOptimal", "isAbandoned", "isIterationLimitReached", "isDualObjectiveLimitReached", "isProvenDualInfeasible", "isPrimalObjectiveLimitReached")
    def __init__(self, P, f):
        EvHooks.__init__(self, P, relevant=self.rel, max_inline=4)
        self.keep = lambda a: mentions(a, lambda x: x[0] == "call" and x[1] == "c17")
        self.cut = []
    def rel(self, n): return n["k"] == "call" and n.get("name") in self.QS + ("doEcpRounds", "OptimizeTNLP", "ReOptimizeTNLP", "solveFromHotStart", "resolve", "setDblParam", "getDblParam", "ComputeNullSpaceCurvature") or n["k"] == "return"
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        nm = n.get("name")
        if nm in self.QS: return [(st, S("q", nm))]
        if nm == "doEcpRounds": return [(st, S("ecp"))]
        if nm in ("OptimizeTNLP", "ReOptimizeTNLP") or nm == "solveFromHotStart" and SBS in {n.get("cls")} | set(self.P.bases(n.get("cls") or "")): return [(st, S("status", nm))]
        if nm in ("resolve", "initialSolve"):
            st = st.copy(); st.ts["res"] = True
            for q in [q for q in st.facts if mentions(q, lambda x: is_s(x, "q"))]: del st.facts[q]
            return [(st, ("void",))]
        if nm == "getDblParam" and len(args) == 2:
            st = st.copy(); k = ip.val_of(st, args[0]); l = args[1]
            if l[0] == "lref": ip.write(st, ip.deref(st, l[1]), S("par", str(k), "model" if obj is not None and clean(obj)[0] == "p" else "own"), n)
            return [(st, UNK)]
        if nm == "setDblParam" and len(args) == 2: self.cut.append((n, st.copy(), ip.val_of(st, args[0]), ip.val_of(st, args[1]))); return [(st, UNK)]
        if nm in ("getObjValue",): return [(st, S("obj"))]
        if n.get("cls") in ("OsiClpSolverInterface", "OsiSolverInterface", "std::vector") or (n.get("cls") or "").startswith("std::"): return [(st, ("call", nm, ip.site(n), (), ()))]
        return None

def status(P, R):
    en = {v["name"]: v["v"] for v in P.E[STATUS]["v"]}
    fs = [f for f in P.F.values() if f["name"] == "solveFromHotStart" and f.get("cls") and SBS in P.bases(f["cls"]) and f.get("b") is not None]
    R.atleast("solvers for trials", len(fs), 2)
    for f in sorted(fs, key=lambda x: x["fn"]):
        h = HS(P, f); ip = Interp(P, h); res = ip.run(f, St()); R.ran(ip)
        for k, st, v in res:
            if k != "ret": continue
            R.ob()
            t = lambda q: ip.truth(st, S("q", q))
            if v[0] == "c":
                if v[1] == en["provenInfeasible"]:
                    e = any(b and a[0] == "eq" and S("ecp") in a[1:] and DBLMAX in a[1:] for a, b in st.facts.items())
                    if not (t("isProvenPrimalInfeasible") or t("isDualObjectiveLimitReached") or e): R.v("C17.status", f, f["l"], "provenInfeasible", "a trial is reported infeasible although neither infeasibility nor the cutoff was proved", st.path())
                elif v[1] in (en["solvedOptimal"], en["solvedOptimalTol"]):
                    if not (t("isProvenOptimal") is True): R.v("C17.status", f, f["l"], "solvedOptimal", "a trial is reported solved although optimality was not established", st.path())
            elif not is_s(v, "status"): R.v("C17.status", f, f["l"], "unknown", "the status reported is not the one of the trial solve (%s)" % str(v)[:60], st.path())
    for f in [g for g in P.F.values() if g["name"] == "markHotStart" and g.get("cls") and SBS in P.bases(g["cls"]) and g.get("b") is not None]:
        h = HS(P, f); ip = Interp(P, h); ip.run(f, St()); R.ran(ip)
        for n, st, k, v in h.cut:
            R.ob(); R.count("cutoffs passed to a trial solver")
            if not (is_s(v, "par") and v[2][2] == "model" and v[2][1] == str(k)): R.v("C17.status", f, n.get("l"), "cutoff", "the limit given to the trial solver is not the one of the problem (%s)" % str(v)[:60], st.path())
    g = P.fn("Bonmin::OsiTMINLPInterface::solveFromHotStart")
    h = HS(P, g); ip = Interp(P, h); res = ip.run(g, St()); R.ran(ip)
    n = 0
    for k, st, v in res:
        x = st.env.get(("f", ("this",), "optimizationStatus_"))
        if k == "ret" and x is not None:
            n += 1; R.ob()
            if not is_s(x, "status"): R.v("C17.status", g, g["l"], "optimizationStatus_", "the status of the trial is not the one the trial solver reported", st.path())
    R.atleast("statuses taken over", n, 1)

# ---------------------------------------------------------------- list of candidates
class HL(EvHooks):
    rich = scoped = True
    def __init__(self, P, f):
        EvHooks.__init__(self, P, relevant=self.rel, max_inline=3, cap=400)
        self.keep = lambda a: mentions(a, lambda x: x[0] == "call" and x[1] == "c17"); self.hits = []; self.f = f
        asg = {}
        for n in walk(f["b"]):
            if n["k"] == "decl":
                for v in n["v"]: asg.setdefault(v["id"], []).append(v.get("e"))
            elif n["k"] == "assign" and peel(n["a"])["k"] == "var": asg.setdefault(peel(n["a"])["id"], []).append(n["b"] if n["op"] == "=" else None)
        self.flags = {i for i, l in asg.items() if len(l) > 1 and all(e is not None and peel(e)["k"] == "bool" for e in l)}
    def rel(self, n):
        if n["k"] == "call": return n.get("name") == "infeasibility"
        if n["k"] in ("assign", "un"):
            a = peel(n["a"] if n["k"] == "assign" else n["e"])
            return a["k"] == "mem" and a["f"] == "numberUnsatisfied_" or a["k"] == "var" and a["id"] in getattr(self, "flags", ())
        return n["k"] == "return"
    def flagged(self, k): return k[0] == "v" and k[2] in self.flags
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        if n.get("name") == "infeasibility":
            st = st.copy()
            for q in [q for q in st.facts if mentions(q, lambda x: is_s(x, "inf"))]: del st.facts[q]
            return [(st, S("inf"))]
        return [(st, ("call", n.get("name"), ip.site(n), (), ()))] if n.get("name") not in (None,) and (self.P.target(n) is None or self.P.target(n).get("b") is None or not self.contains(ip, self.P.target(n))) else None
    def branch(self, ip, st, n, truth):
        v = ip.cv
        if v[0] != "b": return
        a = v[1]; t = truth == v[2]
        if a[0] == "lt" and a[1] == S("inf") and a[2][0] == "c" and a[2][1] >= 1e50 and not t: st.ts["proved"] = True
        if a[0] == "lt" and a[2] == S("inf") and a[1][0] == "c" and a[1][1] >= 1e50 and t: st.ts["proved"] = True
        if a[0] == "eq" and S("inf") in a[1:] and (DBLMAX in a[1:] or any(x[0] == "c" and x[1] >= 1e50 for x in a[1:])) and t: st.ts["proved"] = True
    def loop(self, ip, st, n):
        for k, v in ip.pre_loop.env.items():
            if self.flagged(k) and v[0] == "c": st.ts[("flag", k)] = v
    def head(self, ip, st, n):
        for k, t in st.ts.items():
            if isinstance(k, tuple) and k[0] == "flag": st.env[k[1]] = t
    def iter_end(self, ip, st, n):
        for k, v in st.env.items():
            if self.flagged(k) and v[0] == "c": st.ts[("flag", k)] = v
    def loop_exit(self, ip, sts, n):
        for s in sts:
            for k in [k for k in s.ts if isinstance(k, tuple) and k[0] == "flag"]: del s.ts[k]
        return sts
    def assign(self, ip, st, n, loc, val):
        if loc[0] == "f" and loc[2] == "numberUnsatisfied_" and val[0] == "c" and val[1] < 0: self.hits.append((n, st.copy()))
    def ret(self, ip, st, n, val):
        if val and val[0] == "c" and val[1] < 0 and len(ip.fstack) <= 1: self.hits.append((n, st.copy()))

def lists(P, R):
    fs = [f for f in P.F.values() if f["name"] == "setupList" and f.get("b") is not None]
    R.need(fs, "setupList")
    k = 0
    for f in fs:
        h = HL(P, f); ip = Interp(P, h); ip.run(f, St()); R.ran(ip); k += len(h.hits)
        for n, st in h.hits:
            R.ob()
            if not st.ts.get("proved"): R.v("C17.list", f, n.get("l"), "-1", "a node is declared infeasible although no object was found to be", st.path())
    R.atleast("nodes declared infeasible while listing", k, 1)

# ---------------------------------------------------------------- transfer of bounds
def transfers(P, R):
    F = Flow(P)
    R.atleast("places known to hold bounds", len(F.tags), 150)
    n = 0
    for f, node, d, ss, i in F.sites:
        got = F.role(ss)
        want = F.wanted(d) if isinstance(i, tuple) else F.role([d])
        if len(want) != 1 or not got: continue
        n += 1; R.ob()
        if want & got: continue
        heur = f.get("cls") and ("CbcHeuristic" in P.bases(f["cls"]))
        if heur and len(node.get("a") or []) == 2 and node.get("k") == "call": continue    # a heuristic that fixes a variable at one of its bounds
        R.v("C17.bounds", f, node.get("l"), txt(node)[:60], "%s are given where %s belong" % (sorted(got)[0], sorted(want)[0]))
    R.atleast("transfers of bounds", n, 120)

def run(P, R):
    R.rule("C17.trial", "a trial is recorded as infeasible only if the solver proved it infeasible, or proved it optimal and the value reached the cutoff")
    R.rule("C17.strong", "strong branching judges each side on the solver that was branched and solved, with the bounds put back in between, returns -1 only if both sides are infeasible and 1 only if one is")
    R.rule("C17.choose", "a variable is fixed to, or forced on, a side only if the opposite side's trial is infeasible; the node is declared infeasible or satisfied only on strong branching's or the list's word")
    R.rule("C17.status", "the solvers for trials report infeasible only on proof and solved only if optimality was established, and get the problem's cutoff")
    R.rule("C17.list", "listing the candidates declares the node infeasible only if an object is")
    R.rule("C17.bounds", "lower bounds are set from lower bounds and upper from upper, for columns and rows, through every copy, field and parameter")
    trial(P, R); strong(P, R); choose(P, R); status(P, R); lists(P, R); transfers(P, R)
