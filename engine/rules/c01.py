"""C01 the reported outcome of a solve matches how the search ended."""
from .common import *
from interp import HD

BAB, TM = "Bonmin::Bab", "Bonmin::TMINLP"
RES = ("bestSolution_", "mipStatus_", "bestObj_", "bestBound_")
COPY = {"memcpy": (0, 1), "CoinCopyN": (2, 0), "CoinDisjointCopyN": (2, 0), "copy": (2, 0), "CoinMemcpyN": (2, 0), "copy_n": (2, 0)}
QUERY = {"status", "numberObjects", "isContinuousUnbounded", "isProvenOptimal", "isProvenPrimalInfeasible", "isProvenDualInfeasible",
         "getObjValue", "getBestPossibleObjValue", "bestSolution", "getColSolution", "bestSolution2", "bestObj2", "getMinimizationObjValue", "secondaryStatus"}
SEARCH = {"branchAndBound", "initialSolve"}

class H(EvHooks):
    rich = scoped = True
    def __init__(self, P):
        EvHooks.__init__(self, P, relevant=self.rel, max_inline=3, cap=2000, size=1500)
        self.calls = []
        k = about_fields("BonminAbortAll", "BonminInteruptedOnce", *RES)
        self.keep = lambda a: k(a) or mentions(a, lambda x: x[0] == "call" and x[1] == "q" and (x[2][2] or x[2][0] == "clock"))
    def rel(self, n):
        if n["k"] == "call":
            if n.get("name") == "finalize_solution": return True
            if n.get("name") in QUERY | SEARCH and n.get("cls") in ("CbcModel",): return True
            return n.get("name") in COPY
        if n["k"] == "assign":
            a = peel(n["a"])
            return a["k"] == "mem" and a["f"] in RES
        if n["k"] in ("throw", "return"): return True
        return False
    def want_inline(self, ip, fn, call):
        if fn.get("cls") == BAB and fn["name"] not in ("branchAndBound", "operator()"): return EvHooks.want_inline(self, ip, fn, call)
        if ip.trivial(fn): return fn["name"] not in QUERY
        return fn.get("cls") is None and EvHooks.want_inline(self, ip, fn, call)
    def keepkey(self, st):
        loc = frozenset((k, v) for k, v in st.env.items() if k[0] == "v" and (v[0] == "c" and k[1] == "m" or isclock(v)))
        return (loc, frozenset((a, b) for a, b in st.facts.items() if self.keep(a))) + tuple(st.env.get(("f", ("this",), r)) for r in RES)
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        nm = n.get("name"); model = n.get("cls") == "CbcModel"
        if nm in SEARCH and model:
            ip.throws(st, n)
            st = st.copy(); st.ts["phase"] = 2 if nm == "branchAndBound" else max(1, st.ts.get("phase", 0))
            if nm == "branchAndBound": st.ts["searched"] = True
            # the search changes everything that is not ours; how it was set up no longer matters
            s_ = ip.site(n)
            st.ep = HD({"*O": s_, "*E": s_, "*W": s_})
            st.facts = HD({a: b for a, b in st.facts.items() if self.keep(a) and not mentions(a, lambda x: x[0] == "call" and x[1] == "q" and x[2][0] != "clock")})
            st.env = HD({k: v for k, v in st.env.items() if k[0] == "v" and k[1] == "m" and (v[0] == "c" or isclock(v)) or k[0] == "f" and k[2] in RES})
            out = [(st, ("void",))]
            return out
        if nm in ("CoinCpuTime", "CoinGetTimeOfDay", "CoinWallclockTime"): return [(st, ("call", "q", ("clock", nm, 0), (), ()))]
        if nm == "status" and model and not st.ts.get("searched"): return [(st, C(-1))]
        if nm in QUERY:
            who = "model" if model else "info" if nm in ("bestSolution2", "bestObj2") else "solver"
            return [(st, ("call", "q", (who, nm, st.ts.get("phase", 0)), (), ()))]
        if nm == "size" and obj is not None and mentions(obj, lambda x: x[0] == "call" and x[1] == "q" and x[2][1] == "bestSolution2"):
            return [(st, ("call", "q", ("info", "size2", st.ts.get("phase", 0)), (), ()))]
        if nm in COPY and len(args) >= 3:
            d, s = COPY[nm]
            dv, sv = ip.val_of(st, args[d]), ip.val_of(st, args[s])
            b = dv
            st = st.copy()
            w = []
            mentions(sv, lambda x: (w.append(x[2]), False)[1] if x[0] == "call" and x[1] == "q" else False)
            st.ts[("src", b)] = w[0] if w else ("?",)
            return [(st, dv)]
        if nm == "finalize_solution" and (n.get("cls") == TM or TM in self.P.bases(n.get("cls", ""))):
            st = st.copy(); st.ts["told"] = min(2, st.ts.get("told", 0) + 1)
            self.calls.append((n, st, [ip.val_of(st, a) for a in args]))
            st.ts["last"] = len(self.calls) - 1
            st.note(n.get("l"), "the model is told the outcome")
            return [(st, ("void",))]
        return None
    def assign(self, ip, st, n, loc, val):
        # copying element by element
        if loc[0] != "e": return
        w = []
        mentions(val, lambda x: (w.append(x[2]), False)[1] if x[0] == "call" and x[1] == "q" else False)
        b = loc[1]
        if b[0] in ("i", "obj"): b = ip.read(st, b[1])
        if b[0] == "new" and "double" in str(b[-1]): st.ts[("src", b)] = w[0] if w and val[0] == "i" and val[1][0] == "e" and val[1][2] == loc[2] else ("?",)
    def loop_exit(self, ip, sts, n):
        # (that the loop visits every column is C18's matter)
        f = {k: v for s in sts for k, v in s.ts.items() if isinstance(k, tuple) and k[0] == "src"}
        for s in sts:
            for k, v in f.items(): s.ts.setdefault(k, v)
        return sts
    def may_throw(self, ip, st, n):
        if n["k"] == "call" and n.get("name") in SEARCH and n.get("cls") == "CbcModel": return ("Bonmin::TNLPSolver::UnsolvedError *",)
        return ()
    def branch(self, ip, st, n, truth):
        # the signal handler raises both flags together (checked below)
        if truth and any(m["k"] == "var" and m["name"] == "BonminInteruptedOnce" for m in walk(n)):
            for m in walk(n):
                if m["k"] == "var" and m["name"] == "BonminInteruptedOnce": st.facts[("nz", self.flag(ip, st))] = True
    def flag(self, ip, st):
        return ip.read(st, ("g", "BonminAbortAll"))

def q(ip, st, who, nm):
    """truth of a query in the last phase"""
    return ip.truth(st, ("call", "q", (who, nm, st.ts.get("phase", 0)), (), ()))

def run(P, R):
    R.rule("C01.once", "every path of the search tells the user's model the outcome exactly once, also when the NLP solver fails for good")
    R.rule("C01.status", "success, infeasible, unbounded, limit, interruption and error are each reported only where the facts on the path establish them")
    R.rule("C01.mip", "the status kept for the caller says the same as the one told to the model, and agrees with the presence of a solution")
    R.rule("C01.same", "point, value and bound are read from the same source, after the search, and told unchanged; no point of an earlier search survives")
    R.rule("C01.get", "the accessors return the stored results")
    E = {v["name"]: v["v"] for v in P.E[TM + "::SolverReturn"]["v"]}; M = {v["name"]: v["v"] for v in P.E[BAB + "::MipStatuses"]["v"]}
    R.need({"SUCCESS", "INFEASIBLE", "CONTINUOUS_UNBOUNDED", "LIMIT_EXCEEDED", "USER_INTERRUPT", "MINLP_ERROR"} <= set(E), "outcomes of TMINLP")
    N = {v: k for k, v in E.items()}; MN = {v: k for k, v in M.items()}
    fs = [f for f in P.F.values() if f.get("cls") and (f["cls"] == BAB or BAB in P.bases(f["cls"])) and f.get("b") is not None and any(c.get("name") == "finalize_solution" for c in P.calls(f))]
    R.need(fs, "functions of Bab that tell the model the outcome")
    # the interrupt flags are raised together
    for f in P.F.values():
        if f.get("b") is None: continue
        w = {peel(n["a"])["name"] for n in walk(f["b"]) if n["k"] == "assign" and peel(n["a"])["k"] == "var" and peel(n["a"])["name"] in ("BonminInteruptedOnce", "BonminAbortAll") and txt(n["b"]) in ("true", "1")}
        if w:
            R.ob()
            if "BonminAbortAll" not in w: R.v("C01.status", f, f["l"], "BonminInteruptedOnce", "an interruption is noted without asking all solvers to abort")
    entry = [f for f in P.F.values() if f.get("cls") == BAB and f["name"] == "branchAndBound" and f.get("b") is not None]
    R.need(len(entry) == 1, "Bab::branchAndBound")
    f = entry[0]
    h = H(P); ip = Interp(P, h)
    st = St()
    res = ip.run(f, st); R.ran(ip)
    R.count("paths through the search", len(res)); R.atleast("reports of the outcome", len(h.calls), 3)
    seen = set()
    for kind, st, v in res:
        R.ob()
        t = st.ts.get("told", 0)
        # errors in the way the search was set up are the caller's to hear of; there is no outcome
        if kind == "throw" and t == 0 and not (st.ts.get("phase") and "UnsolvedError" in str(v)): continue
        if t != 1: R.v("C01.once", f, f["l"], "%s/%d" % (kind, t), "a path that ends %s tells the model the outcome %s" % ("normally" if kind == "ret" else "with an error", "never" if not t else "more than once"), st.path())
    for n, st, a in h.calls:
        R.ob()
        def bad(rule, c, msg): R.v(rule, f, n.get("l"), c, msg, st.path())
        if len(a) < 4 or a[0][0] != "c": bad("C01.status", "unknown", "the outcome told is not determined on this path (%s)" % str(a[:1])[:60]); continue
        s = N.get(a[0][1], "?"); ph = st.ts.get("phase", 0)
        fl = lambda name: ip.read(st, ("f", ("this",), name))
        # error path: no point
        if a[2] == ZERO and a[1] == ZERO:
            if s != "MINLP_ERROR": bad("C01.status", "nopoint", "%s is told without a point although the search did not reach its end" % s)
            continue
        sol = fl("bestSolution_")
        has = ip.truth(st, sol)
        abort = ip.truth(st, h.flag(ip, st)) 
        noobj = q(ip, st, "model", "numberObjects") is False or ip.known(st, ("eq", ("call", "q", ("model", "numberObjects", ph), (), ()), ZERO)) is True
        late = any(timeatom(x, b) for x, b in st.facts.items())
        ms = ("call", "q", ("model", "status", ph), (), ()) if st.ts.get("searched") else C(-1)
        is_ = lambda k: eqk(ip, st, ms, k) is True
        isnt = lambda k: eqk(ip, st, ms, k) is False
        unb = q(ip, st, "model", "isContinuousUnbounded")
        PO, PI, DI = (q(ip, st, "solver", x) if q(ip, st, "solver", x) is not None else q(ip, st, "model", x) for x in ("isProvenOptimal", "isProvenPrimalInfeasible", "isProvenDualInfeasible"))
        done = is_(0) and abort is False and not late
        ok = {"SUCCESS": has is True and (PO is True if noobj else done and unb is False),
              "INFEASIBLE": has is False and (PI is True and PO is False if noobj else done and unb is False),
              "CONTINUOUS_UNBOUNDED": DI is True and PO is False if noobj else done and unb is True,
              "LIMIT_EXCEEDED": late or is_(1),
              "USER_INTERRUPT": abort is True or is_(5),
              "MINLP_ERROR": PO is False and PI is False and DI is False if noobj else isnt(0) and isnt(1) and isnt(5) and abort is False and not late}.get(s)
        if not ok: bad("C01.status", s, "%s is told although the path does not establish it (%s)" % (s, facts(has, abort, noobj, late, ms, ip, st, unb, PO, PI, DI)))
        if s == "LIMIT_EXCEEDED" and abort is True: bad("C01.status", s + "/abort", "an interruption by the user is told as a limit")
        mv = fl("mipStatus_")
        m = MN.get(mv[1]) if mv[0] == "c" else None
        if mv[0] == "cond" : m = None
        want = {"SUCCESS": "FeasibleOptimal", "INFEASIBLE": "ProvenInfeasible", "CONTINUOUS_UNBOUNDED": "UnboundedOrInfeasible"}.get(s, "Feasible" if has else "NoSolutionKnown")
        if has is None and s not in ("SUCCESS", "INFEASIBLE", "CONTINUOUS_UNBOUNDED"): pass
        elif m != want: bad("C01.mip", "%s/%s" % (s, m), "the model is told %s, the caller sees %s" % (s, m))
        # same search
        if not (a[2] == sol or has is False and a[2] == ZERO): bad("C01.same", "point", "the point told is not the stored best solution")
        if a[3] != fl("bestObj_"): bad("C01.same", "value", "the value told is not the stored best value")
        if has is True:
            src = st.ts.get(("src", sol))
            if sol[0] != "new" or src is None: bad("C01.same", "stale", "the point told was not filled from this search")
            else:
                ob = fl("bestObj_"); o = ob[2] if ob[0] == "call" and ob[1] == "q" else None
                good = {("model", "bestSolution"): [("model", "getObjValue")], ("info", "bestSolution2"): [("info", "bestObj2")], ("solver", "getColSolution"): [("solver", "getObjValue")], ("model", "getColSolution"): [("model", "getObjValue"), ("solver", "getObjValue")]}.get(src[:2], [])
                if o is None or o[:2] not in good: bad("C01.same", "pair", "point and value come from different sources (%s, %s)" % (src[1] if len(src) > 1 else "?", o[1] if o else str(ob)[:40]))
                if o and (o[2] != ph or src[2] != ph): bad("C01.same", "early", "point or value was read before the search was over")
        bb = fl("bestBound_"); b = bb[2] if bb[0] == "call" and bb[1] == "q" else None
        if noobj:
            if s == "SUCCESS" and bb != fl("bestObj_"): bad("C01.same", "bound", "without integers the bound of a success is its value")
        elif b is None or b[:2] != ("model", "getBestPossibleObjValue") or b[2] != ph: bad("C01.same", "bound", "the bound is not the one of the search that ended (%s)" % str(bb)[:60])
    accessors(P, R, M)

def eqk(ip, st, v, k):
    """is v known (not) to be k"""
    if v[0] == "c": return v[1] == k
    for a in (("eq", v, C(k)), ("eq", C(k), v)):
        r = ip.known(st, a)
        if r is not None: return r
    if any(b and a[0] == "eq" and v in a[1:] and [x for x in a[1:] if x != v and x[0] == "c" and x[1] != k] for a, b in st.facts.items()): return False

def facts(has, abort, noobj, late, ms, ip, st, unb, PO, PI, DI):
    k = [i for i in (-1, 0, 1, 2, 5) if eqk(ip, st, ms, i) is True]
    return "solution: %s, aborted: %s, no integers: %s, out of time: %s, search status: %s, unbounded: %s, NLP optimal/infeasible/unbounded: %s/%s/%s" % (has, abort, noobj, late, k or "?", unb, PO, PI, DI)

def isclock(v):
    return mentions(v, lambda x: x[0] == "call" and x[1] == "q" and x[2][0] == "clock")

def timeatom(a, b):
    """the time left is known to be used up"""
    if a[0] != "lt": return False
    t = isclock
    if a[1] == ZERO and t(a[2]): return b is False
    if a[2] == ZERO and t(a[1]): return b is True
    if t(a[1]) and t(a[2]): return b is False
    return False

def accessors(P, R, M):
    k = 0
    for nm, fld in (("bestSolution", "bestSolution_"), ("bestObj", "bestObj_"), ("mipStatus", "mipStatus_"), ("continuousRelaxation", "continuousRelaxation_"), ("numNodes", "numNodes_"), ("iterationCount", "mipIterationCount_")):
        for f in P.F.values():
            if f.get("cls") != BAB or f["name"] != nm or f.get("b") is None: continue
            for kind, st, v in const_returns(P, R, f):
                R.ob(); k += 1
                if not isfield(v, fld): R.v("C01.get", f, f["l"], nm, "%s does not return the stored result" % nm, st.path())
    for f in P.F.values():
        if f.get("cls") != BAB or f["name"] != "bestBound" or f.get("b") is None: continue
        for s, v0 in M.items():
            if s == "NumMipStats": continue
            for kind, st, v in const_returns(P, R, f, fields={"mipStatus_": v0}):
                R.ob(); k += 1
                if s == "ProvenInfeasible":
                    if not (v[0] == "c" and v[1] >= 1e100): R.v("C01.get", f, f["l"], "bestBound/" + s, "an infeasible problem has no infinite bound", st.path())
                elif not isfield(v, "bestBound_"): R.v("C01.get", f, f["l"], "bestBound/" + s, "bestBound does not return the bound of the search", st.path())
    R.atleast("accessors of results", k, 8)
