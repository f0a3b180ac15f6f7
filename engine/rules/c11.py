"""C11 abort requests and limits stop every search loop."""
from .common import *
from .c17 import clean

NDEBUG = True
OSI = "Bonmin::OsiTMINLPInterface"
ABORT = ("call", "abort", 0, (), ())
GLOB = "BonminAbortAll"
SOLVERS = {"OsiSolverInterface": {"resolve", "initialSolve", "solveFromHotStart", "branchAndBound", "solveFeasibilityProblem"}, "CbcModel": {"branchAndBound", "initialSolve"},
           "Bonmin::TNLPSolver": {"OptimizeTNLP", "ReOptimizeTNLP"}, "Bonmin::SubMipSolver": {"solve", "optimize", "find_good_sol", "optimize_with_lazy_constraints"}}

def lin(v, s=1, out=None):
    """Linear form of a value: {leaf: coefficient}."""
    out = {} if out is None else out
    if v[0] == "op" and v[1] in ("+", "-"):
        lin(v[2], s, out); lin(v[3], s if v[1] == "+" else -s, out)
    elif v[0] == "c": out["1"] = out.get("1", 0) + s * v[1]
    else:
        k = clean(v); out[k] = out.get(k, 0) + s
    return {k: c for k, c in out.items() if c}

class Base(EvHooks):
    rich = scoped = True
    def __init__(self, P, **kw):
        self.P = P; EvHooks.__init__(self, P, relevant=self.rel, **kw)
    def issolve(self, n):
        if n["k"] != "call": return False
        c = n.get("cls") or ""
        return any(n.get("name") in s and (c == b or b in self.P.bases(c)) for b, s in SOLVERS.items())
    def read(self, ip, st, loc):
        if loc == ("g", GLOB): return ABORT
    def silent(self, n): return "CoinMessageHandler" in (n.get("cls") or "") or n.get("name") in ("message", "fflush", "printf", "fprintf")

def transitive(P, h):
    tr = set(); fs = [f for f in P.F.values() if f.get("b") is not None]; more = True
    while more:
        more = False
        for f in fs:
            if f["key"] in tr: continue
            for c in P.calls(f):
                g = P.target(c)
                if h.issolve(c) or g is not None and g["key"] in tr: tr.add(f["key"]); more = True; break
    return tr

def assigned(n):
    """Variables changed in n."""
    out = set()
    for m in walk(n):
        t = None
        if m["k"] == "assign": t = peel(m["a"])
        elif m["k"] == "un" and m["op"] in ("++", "--", "p++", "p--", "++p", "--p", "post++", "post--", "pre++", "pre--"): t = peel(m["e"])
        elif m["k"] == "un" and ("++" in m["op"] or "--" in m["op"]): t = peel(m["e"])
        elif m["k"] == "un" and m["op"] == "&": t = peel(m["e"])
        if t is not None and t["k"] == "var": out.add(t["id"])
        if t is not None and t["k"] == "mem": out.add(t["f"])
    return out

def counted(n):
    """A for loop over a counter that only its header changes, up to a bound the body leaves alone, or over a container's elements."""
    if n["k"] != "for" or n.get("c") is None: return False
    inc = n.get("i") or n.get("inc") or n.get("n")
    conj = []
    def split(c):
        c = peel(c)
        if c["k"] == "bin" and c["op"] == "&&": split(c["a"]); split(c["b"])
        else: conj.append(c)
    split(n["c"])
    body = assigned(n["b"])
    for c in conj:
        if c["k"] == "call" and c.get("op") == "!=": return True      # iterator over a container
        if c["k"] == "bin" and c["op"] in ("<", "<=", "!=") and peel(c["a"])["k"] == "var":
            v = peel(c["a"])["id"]
            if v in body: continue
            if any(x["k"] == "var" and x["id"] in body or x["k"] == "mem" and x["f"] in body for x in walk(c["b"])): continue
            return True
    return False

class HLp(Base):
    def __init__(self, P, loop, solving):
        self.loop_ = loop; self.solving = solving
        Base.__init__(self, P, max_inline=3, cap=500)
        self.keep = self.keepf
        self.ends = []
    def keepf(self, a):
        return mentions(a, lambda x: x == ABORT or x[0] == "call" and x[1] == "now") or a[0] == "lt" and mentions(a, lambda x: x[0] == "lv") or a[0] == "lt" and mentions(a, lambda x: x[0] == "f" and len(x) == 3 and x[2] in ("nLocalSearch_", "maxLocalSearch_"))
    def rel(self, n):
        if n["k"] == "var" and n.get("w") == "global" and n["name"] == GLOB: return True
        if n["k"] == "call" and (self.issolve(n) or n.get("name") == "CoinCpuTime"): return True
        return n["k"] in ("assign", "un") and any(x["k"] == "mem" and x["f"] == "nLocalSearch_" for x in walk(n))
    def want_inline(self, ip, fn, call):
        if ip.trivial(fn): return True
        if fn.get("cls") and any(b in self.P.bases(fn["cls"]) or b == fn["cls"] for b in SOLVERS): return False
        return any(n["k"] == "var" and n["name"] == GLOB for n in walk(fn.get("b"))) or any(n["k"] == "mem" and n["f"] in ("nLocalSearch_", "maxLocalSearchTime_") for n in walk(fn.get("b")))
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        if n.get("name") == "CoinCpuTime": return [(st, ("call", "now", 0, (), ()))]
        if self.issolve(n):
            st = st.copy()
            if "SubMipSolver" in (n.get("cls") or ""):
                st.ts["mip"] = n.get("l")
                st.ts["argt"] = clean(ip.val_of(st, args[-1])) if args else None
                if not any(a[0] == "lt" and (b and isf(a[1], "nLocalSearch_") and isf(a[2], "maxLocalSearch_") or not b and isf(a[2], "nLocalSearch_") and isf(a[1], "maxLocalSearch_") ) for a, b in st.facts.items()): st.ts["unb"] = n.get("l")
            return [(st, ("call", n["name"], ip.site(n), (), ()))]
        if self.silent(n): return [(st, obj or UNK)]
        g = self.P.target(n)
        if (g is None or not self.want_inline(ip, g, n)) and not any(h in "rp" for h in n.get("how", "")): return [(st, ("call", n.get("name") or "?", ip.site(n), (), ()))]     # touches neither the flag nor the clock
        return None
    def assign(self, ip, st, n, loc, val):
        if loc[0] == "f" and loc[2] == "nLocalSearch_": st.ts["inc"] = True
    def head(self, ip, st, n):
        if n is self.loop_:
            for q in [q for q in st.facts if self.keepf(q)]: del st.facts[q]
            for k in ("mip", "inc", "unb", "argt"): st.ts.pop(k, None)
    def iter_end(self, ip, st, n):
        if n is not self.loop_: return
        c = peel(n["c"]) if n.get("c") is not None else {"k": "bool"}
        if c["k"] == "un" and c["op"] == "!": neg, c = True, peel(c["e"])
        else: neg = False
        if c["k"] == "var" and c.get("w") == "local":
            for loc, v in st.env.items():
                if loc[0] == "v" and loc[2] == c["id"] and v[0] == "c" and bool(v[1]) == neg: return          # the loop ends here
        self.ends.append(st.copy())

def isf(v, name): return v[0] == "i" and v[1][0] == "f" and v[1][2] == name
def fieldleaf(k, name): return isinstance(k, tuple) and k[0] == "i" and k[1][0] == "f" and k[1][2] == name
NOW = ("call", "now", 0, (), ())

def timeform(a, b):
    """Is this fact 'the time used is within the limit' (True), its opposite (False) or something else (None)?"""
    if a[0] != "lt": return None
    d = lin(a[1]); lin(a[2], -1, d); d = {k: c for k, c in d.items() if c}
    if len(d) != 3 or NOW not in d: return None
    tb = [k for k in d if fieldleaf(k, "timeBegin_")]; mx = [k for k in d if fieldleaf(k, "maxLocalSearchTime_")]
    if len(tb) != 1 or len(mx) != 1: return None
    # a[1] - a[2] < 0 holds iff b; used - limit = now - tb - max
    c = d[NOW]
    if d[tb[0]] != -c or d[mx[0]] != -c: return None
    return b if c > 0 else not b

def counterfact(ip, st, n):
    """The iteration passed a test of a counter against a bound that does not change in the loop."""
    for a, b in st.facts.items():
        if a[0] != "lt": continue
        for cnt, bnd, want in ((a[1], a[2], True), (a[2], a[1], False)):
            if b is not want: continue
            c = cnt
            if c[0] == "op" and c[1] == "+" and c[3][0] == "c" and c[3][1] > 0: c = c[2]
            if c[0] == "lv" and not mentions(bnd, lambda x: x[0] in ("lv", "call", "out") or x[0] == "i" and len(x) > 2):
                # the counter only ever goes up
                name = c[2]
                bad = any(m["k"] == "decl" and any(d["name"] == name for d in m["v"]) for m in walk(n))      # starts anew in each round
                for m in walk(n):
                    if m["k"] == "assign" and peel(m["a"])["k"] == "var" and peel(m["a"])["name"] == name: bad = bad or m.get("op") not in ("+=",)
                    if m["k"] == "un" and "--" in m["op"] and peel(m["e"])["k"] == "var" and peel(m["e"])["name"] == name: bad = True
                if not bad and any((m["k"] == "un" and "++" in m["op"] or m["k"] == "assign" and m.get("op") == "+=") and peel(m.get("e") or m.get("a"))["k"] == "var" and peel(m.get("e") or m.get("a"))["name"] == name for m in walk(n)): return True
    return False

def loops(P, R):
    b = Base.__new__(Base); b.P = P
    tr = transitive(P, b)
    # cut generation and error paths reach a solver only through virtual helpers; what counts is a solve inside the loop
    open_, cnt = [], 0
    for f in sorted((f for f in P.F.values() if f.get("b") is not None), key=lambda f: f["key"]):
        for n in walk(f["b"]):
            if n["k"] not in ("for", "while", "do"): continue
            if not any(b.issolve(c) or c["k"] == "call" and P.target(c) is not None and P.target(c)["key"] in tr for c in walk(n)): continue
            if counted(n): cnt += 1
            else: open_.append((f, n))
    R.atleast("counted loops with solves", cnt, 4); R.atleast("open loops with solves", len(open_), 6)
    R.count("loops", cnt + len(open_)); R.ob(cnt)
    timed = 0
    for f, n in open_:
        h = HLp(P, n, tr); ip = Interp(P, h); ip.run(f, St()); R.ran(ip)
        R.sample("%s:%s %s" % (rel(f), n.get("l"), f["fn"]))
        for st in h.ends:
            R.ob()
            t = st.facts.get(("nz", ABORT))
            if t is not False and not counterfact(ip, st, n):
                R.v("C11.abort", f, n.get("l"), "loop", "the loop solves again and again without looking at the user's abort request%s" % (" (and goes on although it was seen)" if t else ""), st.path())
                break
        # a decomposition with a time budget and a number of local searches respects both
        if f["name"] == "performOa" and any(m["k"] == "mem" and m["f"] == "maxLocalSearchTime_" for m in walk(f["b"])) or f["name"] == "performOa" and any(m["k"] == "call" and "SubMipSolver" in (m.get("cls") or "") for m in walk(n)):
            timed += 1; R.need(h.ends, "rounds of %s" % f["fn"])
            for st in h.ends:
                R.ob(2)
                if not any(timeform(a, b2) is True for a, b2 in st.facts.items()):
                    R.v("C11.time", f, n.get("l"), "clock", "a round ends without testing the time used against the limit of this decomposition", st.path())
                if st.ts.get("mip"):
                    if st.ts.get("unb"): R.v("C11.time", f, st.ts["unb"], "budget", "a local search starts without the number of local searches being below its limit", st.path())
                    if not st.ts.get("inc"): R.v("C11.time", f, st.ts["mip"], "count", "a local search is not counted", st.path())
    R.atleast("decompositions with a time budget", timed, 2)

class HT(Base):
    """Time handed to the sub-MIPs of a decomposition."""
    def __init__(self, P): Base.__init__(self, P, max_inline=3, cap=500); self.keep = lambda a: False; self.args = []
    def rel(self, n): return n["k"] == "call" and (self.issolve(n) or n.get("name") == "CoinCpuTime")
    def want_inline(self, ip, fn, call): return ip.trivial(fn)
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        if n.get("name") == "CoinCpuTime": return [(st, NOW)]
        if self.issolve(n) and "SubMipSolver" in (n.get("cls") or ""): self.args.append((n, ip.val_of(st, args[-1]), st.copy())); return [(st, ("void",))]
        if ip.trivial(self.P.target(n)) if self.P.target(n) is not None else False: return None
        return [(st, ("call", n.get("name") or "?", ip.site(n), (), ()))]

def submip_time(P, R):
    n = 0
    for f in P.F.values():
        if f["name"] != "performOa" or f.get("b") is None: continue
        h = HT(P); ip = Interp(P, h); ip.run(f, St()); R.ran(ip)
        for c, v, st in h.args:
            R.ob(); n += 1; d = lin(v)
            ok = d.get(NOW) == -1 and len(d) == 3 and any(fieldleaf(k, "timeBegin_") and x == 1 for k, x in d.items()) and any(fieldleaf(k, "maxLocalSearchTime_") and x == 1 for k, x in d.items())
            if not ok: R.v("C11.time", f, c.get("l"), "sub-MIP time", "the MILP solver is not given the time that is left", st.path())
    R.atleast("time limits given to sub-MIPs", n, 3)

class HD2(Base):
    scoped = False
    def __init__(self, P): Base.__init__(self, P, max_inline=2); self.keep = lambda a: True
    def rel(self, n): return n["k"] == "return"
    def call(self, ip, st, n, obj, args):
        if n["k"] == "call" and n.get("name") == "CoinCpuTime": return [(st, NOW)]
        return None

def dolocal(P, R):
    n = 0
    for f in P.F.values():
        if f["name"] != "doLocalSearch" or f.get("b") is None or not any(m["k"] == "mem" and m["f"] == "nLocalSearch_" for m in walk(f["b"])): continue
        n += 1
        ip = Interp(P, HD2(P)); res = ip.run(f, St()); R.ran(ip); yes = 0
        for k, st, v in res:
            if k != "ret" or v == ZERO: continue
            yes += 1; R.ob(3)
            if not any(timeform(a, b) is True for a, b in st.facts.items()): R.v("C11.time", f, f["l"], "clock", "a local search is allowed without testing the time limit", st.path())
            for c, m, what in (("nLocalSearch_", "maxLocalSearch_", "number of local searches"), ("numSols_", "maxSols_", "number of solutions")):
                if not any(a[0] == "lt" and (b and isf(a[1], c) and isf(a[2], m) or not b and isf(a[2], c) and isf(a[1], m) and False) for a, b in st.facts.items()):
                    R.v("C11.time", f, f["l"], m, "a local search is allowed although the %s may be used up" % what, st.path())
        R.atleast("ways to allow a local search", yes, 1)
    R.atleast("decisions on a local search", n, 2)

# ---------------------------------------------------------------- entry points
class HE(Base):
    def __init__(self, P): Base.__init__(self, P, max_inline=4); self.keep = lambda a: False; self.hit = []
    def read(self, ip, st, loc):
        if loc == ("g", GLOB): return ONE
    def rel(self, n): return n["k"] == "call" and n.get("name") in ("OptimizeTNLP", "ReOptimizeTNLP") or n["k"] == "return"
    def call(self, ip, st, n, obj, args):
        if n["k"] == "call" and n.get("name") in ("OptimizeTNLP", "ReOptimizeTNLP"): self.hit.append((n, st.copy())); return [(st, UNK)]
        if n["k"] == "call" and self.silent(n): return [(st, obj or UNK)]
        return None

def entries(P, R):
    fs = [f for f in P.F.values() if f.get("cls") == OSI and f["name"] in ("initialSolve", "resolve", "solveAndCheckErrors") and f.get("b") is not None]
    R.atleast("solves of the interface", len(fs), 3)
    for f in fs:
        h = HE(P); ip = Interp(P, h); ip.run(f, St()); R.ran(ip); R.ob()
        for n, st in h.hit[:1]: R.v("C11.abort", f, n.get("l"), "solve", "a new NLP solve starts although the user asked to abort", st.path())
    cb = [f for f in P.F.values() if f["name"] == "intermediate_callback" and f.get("b") is not None and f.get("cls") == "Bonmin::TMINLP2TNLP"]
    R.need(cb, "TMINLP2TNLP::intermediate_callback")
    for f in cb:
        h = HE(P); ip = Interp(P, h); res = ip.run(f, St()); R.ran(ip)
        for k, st, v in res:
            R.ob()
            if k == "ret" and v != ZERO: R.v("C11.abort", f, f["l"], "callback", "a running NLP solve is not stopped by the abort request", st.path())

# ---------------------------------------------------------------- handler and main search
class HG(Base):
    def __init__(self, P): Base.__init__(self, P, max_inline=2); self.keep = lambda a: mentions(a, lambda x: x[0] == "g")
    slice = False
    def read(self, ip, st, loc): return None
    def rel(self, n): return False
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        if n.get("name") == "sayEventHappened": st = st.copy(); st.ts[("told", clean(obj))] = True; return [(st, ("void",))]
        if n.get("name") == "exit": return []
        return [(st, UNK)]
    def assign(self, ip, st, n, loc, val):
        if loc == ("g", GLOB): st.ts["abort"] = val

SETS = {"setMaximumNodes": "MaxNodes", "setMaximumNumberIterations": "MaxIterations", "setMaximumSolutions": "MaxSolutions", "setup_global_time_limit": "MaxTime"}
DBL = {"CbcAllowableGap": "AllowableGap", "CbcAllowableFractionGap": "AllowableFractionGap"}
class HB(Base):
    def __init__(self, P): Base.__init__(self, P, max_inline=2, cap=800); self.keep = lambda a: a[0] == "lt" and mentions(a, lambda x: x[0] == "call" and x[1] == "now"); self.runs = []; self.n = 0
    slice = True
    def matters(self, ip, n): return self.rel(n) or n["k"] in ("assign", "decl") and any(x["k"] == "call" and x.get("name") == "CoinCpuTime" for x in walk(n))
    def rel(self, n):
        if n["k"] == "call": return n.get("name") in ("signal", "branchAndBound", "CoinCpuTime") or n.get("name") == "setDblParam" and n.get("cls") == "CbcModel" or n.get("name") in SETS
        return n["k"] == "assign" and any(x["k"] == "var" and x["name"] in ("currentBranchModel", "remaining_time") for x in walk(n["a"]))
    def read(self, ip, st, loc):
        if loc == ("g", GLOB): return ABORT
        if loc == ("g", "currentBranchModel"): return st.ts.get("cur", ("call", "outer", 0, (), ()))
    def want_inline(self, ip, fn, call): return ip.trivial(fn) or any(n["k"] == "var" and n["name"] == "currentBranchModel" for n in walk(fn.get("b")))
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        nm = n.get("name")
        if nm == "CoinCpuTime": return [(st, ("call", "now", ip.site(n), (), ()))]
        if nm in ("getDoubleParameter", "getIntParameter") and args:
            v = ip.val_of(st, args[0]); return [(st, ("call", "param", 0, (v,), ()))]
        if nm == "signal": st = st.copy(); st.ts["sig"] = True; return [(st, UNK)]
        if nm == "setDblParam" and n.get("cls") == "CbcModel" and len(args) == 2:
            st = st.copy()
            for w in DBL:
                if any(x["k"] == "enum" and x.get("name") == w for x in walk(n["a"][0])): st.ts[("set", w)] = ip.val_of(st, args[1])
            if any(x["k"] in ("enum", "var", "mem") and "CbcMaximumSeconds" in (x.get("name") or x.get("n") or x.get("f") or "") for x in walk(n["a"][0])): st.ts["sec"] = ip.val_of(st, args[1])
            return [(st, UNK)]
        if nm in SETS and len(args) == 1:
            st = st.copy(); st.ts[("set", nm)] = ip.val_of(st, args[0]); return [(st, UNK)]
        if nm == "branchAndBound" and n.get("cls") == "CbcModel": self.runs.append((n, st.copy(), clean(obj))); return None
        if self.silent(n): return [(st, obj or UNK)]
        g = self.P.target(n)
        if g is None or not self.want_inline(ip, g, n): return [(st, ("call", nm or "?", ip.site(n), (), ()))]
        return None
    def may_throw(self, ip, st, n): return ("Bonmin::TNLPSolver::UnsolvedError *", "CoinError") if n["k"] == "call" and n.get("name") == "branchAndBound" and n.get("cls") == "CbcModel" else ()
    def assign(self, ip, st, n, loc, val):
        if loc == ("g", "currentBranchModel"): st.ts["cur"] = val; st.note(n.get("l"), "model to interrupt set")

def search(P, R):
    hs = [f for f in P.F.values() if f["name"] == "signal_handler" and f.get("b") is not None]; R.need(hs, "signal_handler")
    cur = ("i", ("g", "currentBranchModel"))
    for f in hs:
        ip = Interp(P, HG(P)); res = ip.run(f, St()); R.ran(ip); m = 0
        for k, st, v in res:
            if k != "ret": continue
            m += 1; R.ob(2)
            if st.ts.get("abort") != ONE: R.v("C11.abort", f, f["l"], "flag", "the interrupt handler returns without raising the abort request", st.path())
            null = any(not b and a[0] == "nz" and clean(a[1]) == cur for a, b in st.facts.items()) or any(b and a[0] == "eq" and cur in (clean(a[1]), clean(a[2])) for a, b in st.facts.items())
            if not null and not st.ts.get(("told", cur)): R.v("C11.abort", f, f["l"], "tell", "the interrupt handler does not tell the running search", st.path())
        R.atleast("ways through the interrupt handler", m, 2)
    fs = [f for f in P.F.values() if f["fn"] == "Bonmin::Bab::branchAndBound" and f.get("b") is not None]; R.need(fs, "Bab::branchAndBound")
    E2 = next((e for e in P.E if "MaxTime" in {x["name"] for x in P.E[e]["v"]}), None); R.need(E2, "MaxTime")
    par_ = {x["name"]: C(x["v"]) for e in P.E if "MaxTime" in {x["name"] for x in P.E[e]["v"]} or "MaxNodes" in {x["name"] for x in P.E[e]["v"]} for x in P.E[e]["v"]}
    for pn in list(SETS.values()) + list(DBL.values()): R.need(par_.get(pn), "BabSetupBase::%s" % pn)
    mt = C({x["name"]: x["v"] for x in P.E[E2]["v"]}["MaxTime"])
    for f in fs:
        h = HB(P); ip = Interp(P, h); res = ip.run(f, St()); R.ran(ip)
        R.atleast("runs of the search", len(h.runs), 1)
        for n, st, o in h.runs:
            R.ob(3)
            c = st.ts.get("cur")
            if c is None or not (c[0] == "addr" and clean(c) == clean(o) or clean(c) == clean(o)): R.v("C11.abort", f, n.get("l"), "model", "an interrupt is not passed to the search that starts here", st.path())
            if not st.ts.get("sig"): R.v("C11.abort", f, n.get("l"), "signal", "the search starts without the interrupt handler", st.path())
            v = st.ts.get("sec"); d = lin(v) if v is not None else {}
            nows = sorted(x for k, x in d.items() if isinstance(k, tuple) and k[:2] == ("call", "now")); par = [x for k, x in d.items() if isinstance(k, tuple) and k[:2] == ("call", "param") and k[3] == (mt,)]
            if not (nows == [-1, 1] and par == [1] and len(d) == 3): R.v("C11.time", f, n.get("l"), "remaining time", "the search is not given the user's time limit less the time used since the start", st.path())
            elif not any(a[0] == "lt" and b is (a[2] == v) and (a[1] if a[2] == v else a[2]) in (ZERO, C(0.0)) for a, b in st.facts.items() if v in a[1:]): R.v("C11.time", f, n.get("l"), "no time left", "the search starts although no time is left", st.path())
            for w, pn in list(SETS.items()) + list(DBL.items()):
                R.ob(); v = st.ts.get(("set", w)); k = par_.get(pn)
                if v is None or v[:2] != ("call", "param") or v[3] != (k,): R.v("C11.time", f, n.get("l"), w, "the user's %s does not reach the search" % pn, st.path())
            # the first reading is the start of this call: it comes before the root solve
        outs = [(s, "return") for k, s, v in res if k == "ret"] + [(s, "throw") for s, t, m in ip.sink[0] if m is not None and m["k"] == "throw"]
        for s, how in outs:
            R.ob()
            if s.ts.get("cur", ("call", "outer", 0, (), ())) not in (("call", "outer", 0, (), ()), ZERO): R.v("C11.abort", f, f["l"], "model left (%s)" % how, "after the search an interrupt still goes to its model, which may be gone, instead of the search around it", s.path())

class HC(Base):
    """Limits of a decomposition: the tighter of its own and the global one."""
    def __init__(self, P): Base.__init__(self, P, max_inline=2); self.keep = lambda a: a[0] == "lt"
    scoped = False
    def rel(self, n): return n["k"] == "mem" and n["f"] in ("maxLocalSearchTime_", "maxSols_") or n["k"] == "call" and n.get("name") in ("GetNumericValue", "GetIntegerValue")
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        if n.get("name") in ("getDoubleParameter", "getIntParameter") and args: return [(st, ("call", "param", 0, (ip.val_of(st, args[0]),), ()))]
        if n.get("fn") in ("std::min", "min") and len(args) == 2:
            a, b = sorted((clean(ip.val_of(st, x)) for x in args), key=repr); return [(st, ("call", "min", 0, (a, b), ()))]
        if n.get("name") in ("GetNumericValue", "GetIntegerValue") and len(args) >= 2:
            k = ip.val_of(st, args[0]); st = st.copy()
            l = args[1]
            if isinstance(l, tuple) and l[0] in ("addr", "lref", "obj"): l = l[1]
            if isinstance(l, tuple) and l[0] in ("v", "f"): 
                ip.write(st, l, ("call", "option", 0, (k,), ()), n)
                if l[0] == "f" and l[2] in ("maxLocalSearchTime_", "maxSols_"): st.ts[l[2]] = ("call", "option", 0, (k,), ())
            return [(st, UNK)]
        if ip.trivial(self.P.target(n)) if self.P.target(n) is not None else False: return None
        return [(st, ("call", n.get("name") or "?", ip.site(n), (), ()))]
    def assign(self, ip, st, n, loc, val):
        if loc[0] == "f" and loc[2] in ("maxLocalSearchTime_", "maxSols_"): st.ts[loc[2]] = clean(val)

def limits(P, R):
    m = 0
    en = {x["name"]: C(x["v"]) for e in P.E for x in P.E[e]["v"] if x["name"] in ("MaxTime", "MaxSolutions")}
    for f in P.F.values():
        if not f.get("ctor") or f.get("b") is None or not any(n["k"] == "mem" and n["f"] == "maxLocalSearchTime_" for n in walk(f["b"])): continue
        if not any("BabSetupBase" in p["ct"] for p in f["p"]): continue
        m += 1; ip = Interp(P, HC(P)); res = ip.run(f, St()); R.ran(ip)
        for k, st, v in res:
            if k != "ret": continue
            R.ob(2)
            for fld, pn in (("maxLocalSearchTime_", "MaxTime"), ("maxSols_", "MaxSolutions")):
                g = ("call", "param", 0, (en[pn],), ()); x = st.ts.get(fld)
                # the global limit itself, the smaller of both, or the own one shown not to be larger
                ok = x == g or x is not None and x[:2] == ("call", "min") and g in x[3]
                own = lambda y: y == x or isf(y, fld) or y[:2] == ("call", "option") and x is None or y[0] == "out" and x is None
                ok = ok or any(a[0] == "lt" and (not b and own(clean(a[2])) and clean(a[1]) == g or b and own(clean(a[1])) and clean(a[2]) == g) for a, b in st.facts.items())
                if not ok: R.v("C11.time", f, f["l"], fld, "the decomposition may go beyond the global limit %s" % pn, st.path())
    R.atleast("decompositions with limits", m, 2)

class HM(Base):
    def __init__(self, P): Base.__init__(self, P, max_inline=2, cap=500); self.keep = lambda a: False; self.runs = []
    def rel(self, n): return n["k"] == "call" and n.get("name") in ("branchAndBound", "setMaximumSeconds")
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        if n.get("name") == "setMaximumSeconds": st = st.copy(); st.ts[("sec", clean(obj))] = ip.val_of(st, args[0]); return [(st, UNK)]
        if n.get("name") == "branchAndBound" and n.get("cls") == "CbcModel": self.runs.append((n, st.ts.get(("sec", clean(obj))), st.copy())); return [(st, ("void",))]
        return None

def submip(P, R):
    n = 0
    for f in P.F.values():
        if f.get("cls") != "Bonmin::SubMipSolver" or f.get("b") is None or not any(m["k"] == "call" and m.get("name") == "branchAndBound" for m in walk(f["b"])): continue
        h = HM(P); ip = Interp(P, h); ip.run(f, St()); R.ran(ip)
        last = f["p"][-1]["name"] if f["p"] else None
        for c, v, st in h.runs:
            n += 1; R.ob()
            if v != ("p", last): R.v("C11.time", f, c.get("l"), "sub-MIP", "the sub-MIP runs without the time limit it was given", st.path())
    R.atleast("sub-MIP runs", n, 2)

def run(P, R):
    R.rule("C11.abort", "every loop that solves is counted or looks at the abort request in each round and leaves; no NLP solve starts and a running one is stopped once it is raised; the interrupt handler raises it and tells the search that is running")
    R.rule("C11.time", "decompositions test their time and search budgets each round; sub-MIPs and the main search get the time that is left")
    loops(P, R); submip_time(P, R); dolocal(P, R); entries(P, R); search(P, R); limits(P, R); submip(P, R)
