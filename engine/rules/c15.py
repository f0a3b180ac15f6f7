"""C15 decomposition accepts points and closes nodes only on proof."""
from .common import *
from interp import HD

DEC, MIP, NLP = "Bonmin::OaDecompositionBase", "Bonmin::SubMipSolver", "Bonmin::OsiTMINLPInterface"
QUERY = {"isProvenOptimal", "isProvenPrimalInfeasible", "isProvenInfeasible", "isProvenDualInfeasible", "isAbandoned", "isIterationLimitReached",
         "isDualObjectiveLimitReached", "getObjValue", "getColSolution", "getStrictColSolution", "optimal", "lowBound", "getLowerBound", "getLastSolution", "bestSolution",
         "getSolutionCount", "getBestPossibleObjValue", "optimization_status", "status", "isSecondsLimitReached", "isNodeLimitReached"}
SOLVE = {"nlp": {"resolve", "initialSolve", "solveFeasibilityProblem", "resolveForCost", "resolveForRobustness"}, "lp": {"resolve", "initialSolve", "branchAndBound"},
         "mip": {"solve", "optimize", "find_good_sol"}, "cbc": {"branchAndBound"}}
COPY = {"memcpy": (0, 1), "CoinCopyN": (2, 0), "CoinDisjointCopyN": (2, 0), "CoinMemcpyN": (2, 0), "copy_n": (2, 0), "copy": (2, 0)}
FREE = {"fixIntegers", "relaxIntegers", "refixIntegers", "integerFeasible", "isDifferentOnIntegers", "installCuts"}
CUT = {"getOuterApproximation", "getBendersCut"}
BIG = 1e49

def Q(who, nm): return ("call", "q", (who, nm), (), ())
def isq(v, who=None, nm=None):
    return v[0] == "call" and v[1] == "q" and (who is None or v[2][0] == who) and (nm is None or v[2][1] in ((nm,) if isinstance(nm, str) else nm))
def hasq(v, who, nm=None): return mentions(v, lambda x: isq(x, who, nm))

def subst(v, who):
    """what was read before the solve is an earlier answer from now on"""
    if not isinstance(v, tuple): return v
    if len(v) > 2 and v[0] == "call" and v[1] == "q" and v[2][0] == who: return ("call", "q", ("old " + who,) + v[2][1:], (), ())
    return tuple(subst(x, who) for x in v)

class H(EvHooks):
    rich = scoped = True
    def __init__(self, P, f):
        EvHooks.__init__(self, P, relevant=self.rel, max_inline=3, cap=3000, size=900)
        self.f = f; self.rets = []; self.viol = []; self.sets = []; self.posts = 0; self.bounds = []; self.cutoffs = []; self.mips = []; self.passed = []
        self.oa = None
        # variables that carry a bound or a value
        self.names = {"cutoff", "ub"}; grown = True
        while grown:
            grown = False
            for n in walk(f["b"]):
                for nm, e in ([(v["name"], v["e"]) for v in n["v"] if v.get("e")] if n["k"] == "decl" else [(peel(n["a"])["name"], n["b"])] if n["k"] == "assign" and peel(n["a"])["k"] == "var" else []):
                    if nm not in self.names and any(m["k"] == "call" and m.get("name") in ("lowBound", "getLowerBound") or m["k"] == "var" and m["name"] in self.names and nm != m["name"] for m in walk(e)) and "bool" not in str(e.get("t")): self.names.add(nm); grown = True
        N = self.names; T = self.tagged = set()
        self.k1 = lambda a: mentions(a, lambda x: x[0] == "call" and x[1] == "q" and x[2][1] not in ("isDualObjectiveLimitReached",) or x[0] == "f" and len(x) == 3 and x[2] in ("passBound_", "gap_tol_") or
                                     x[0] == "lv" and (x[2] in N or x[2] in T) or x[0] == "v" and len(x) == 4 and x[3] in N)
        self.keep = lambda a: self.k1(a) and not (a[0] == "lt" and (hasq(a, "lp") or a[1] == ZERO or isq(a[1], "val", "cutoff") or isq(a[1], "val", "ub"))) and not (a[0] == "nz" and (isq(a[1], "val") or a[1][0] == "lv" and a[1][2] in ("cutoff", "ub")))
    def who(self, ip, st, n, obj):
        c = n.get("cls") or ""
        if c == "CbcModel": return "cbc"
        if c == MIP: return "mip"
        if c == NLP: return "nlp"
        if c in ("OsiSolverInterface", "OsiClpSolverInterface"):
            if obj is not None and mentions(obj, lambda x: x[0] == "f" and len(x) == 3 and x[2] in ("nlp_",)): return "nlp"
            return "lp"
        if c.startswith("Bonmin::") and NLP in self.P.bases(c): return "nlp"
    def rel(self, n):
        if n["k"] == "call":
            nm = n.get("name"); c = n.get("cls") or ""
            if nm in ("setSolution", "setMipBound", "performOa"): return True
            if nm in FREE or nm in CUT: return True
            if c in (MIP, NLP, "CbcModel", "OsiSolverInterface", "OsiClpSolverInterface") and (nm in QUERY or any(nm in s for s in SOLVE.values())): return True
            if c in (NLP, "OsiSolverInterface") and nm in ("setColLower", "setColUpper", "setColBounds"): return True
            return nm in COPY
        if n["k"] in ("throw", "return"): return True
        if n["k"] == "assign":
            a = peel(n["a"])
            return a["k"] == "mem" and a["f"] in ("lowBound_", "optimal_", "integerSolution_", "solution_")
        return False
    def contains(self, ip, f, seen=None):
        c = f.get("cls") or ""
        if c and not (c == DEC or DEC in self.P.bases(c) or c == MIP): return False
        if f["name"] in FREE | CUT: return False
        return EvHooks.contains(self, ip, f, seen)
    def want_inline(self, ip, fn, call):
        c = fn.get("cls") or ""
        if fn["name"] in QUERY | FREE | CUT or fn["name"] == "performOa": return False
        if c == MIP and any(fn["name"] in s for s in SOLVE.values()): return self.f.get("cls") == MIP and EvHooks.want_inline(self, ip, fn, call)
        if c == NLP or c.startswith("Bonmin::TM"): return False
        return EvHooks.want_inline(self, ip, fn, call)
    def keepkey(self, st):
        return frozenset((k, v) for k, v in st.env.items() if k[0] == "v" and v[0] == "c" and k[1] == "m")
    def read(self, ip, st, loc):
        return C(sys.float_info.max) if loc == ("g", "COIN_DBL_MAX") else None
    # -- solves and answers ----------------------------------------------
    def solved(self, ip, st, w, n):
        st = st.copy()
        st.facts = HD({a: b for a, b in st.facts.items() if not hasq(a, w) and not hasq(a, "old " + w)})
        st.env = HD({k: subst(v, w) for k, v in st.env.items() if k[0] != "e"})
        s_ = ip.site(n); st.ep = HD({"*O": s_, "*E": s_, "*W": s_})
        for k, t in list(st.ts.items()):
            if isinstance(k, tuple) and k[0] == "tag" and t[0] == w: del st.ts[k]
        if w == "nlp":
            was = st.ts.get("fixed")
            st.ts["fixed"] = "solved" if st.ts.get("fixed") == "fixed" else None if st.ts.get("fixed") == "solved" and n.get("name") != "resolve" else st.ts.get("fixed")
            st.ts["nlp"] = "feas" if n.get("name") == "solveFeasibilityProblem" else "main"
            if st.ts.get("fixed") == "solved" and was == "fixed" or n.get("name") == "solveFeasibilityProblem": st.ts["uncut"] = "point"
        if w in ("lp", "mip") and st.ts.get("uncut") in ("point", "cut") and st.ts.get("pass"):
            if not (w == "lp" and st.ts.get("pass") != "in"): self.viol.append(("C15.cutoff-point", n, st, w, "the %s is solved again before the rejected point was cut off in it" % ("LP" if w == "lp" else "sub-MILP")))
        return st
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        nm = n.get("name"); w = self.who(ip, st, n, obj)
        if n.get("cls") == "CoinMessageHandler": return [(st, obj if obj is not None else UNK)]
        if w and nm in SOLVE[w] and not (w == "mip" and self.f.get("cls") == MIP):
            st = self.solved(ip, st, w, n)
            st.note(n.get("l"), "%s solved" % w)
            return [(st, Q(w, nm))]
        if w and nm in QUERY and not (w == "mip" and self.f.get("cls") == MIP):
            st = st.copy(); return [(st, Q(w, nm))]
        av = lambda i: ip.val_of(st, args[i])
        if nm in COPY and len(args) >= 3:
            d, s = COPY[nm]; st = st.copy()
            st.ts[("src", root(av(d)))] = av(s) if isq(av(s)) else ("?",)
            return [(st, av(d))]
        if nm == "setSolution" and n.get("cls") in ("OsiBabSolver", "Bonmin::BabInfo", "Bonmin::AuxInfo"):
            self.sets.append((n, st.copy(), [av(i) for i in range(len(args))]))
            st = st.copy(); st.ts["set"] = True
            return [(st, ("void",))]
        if nm == "setMipBound":
            self.passed.append((n, st.copy(), av(0)))
            return [(st, ("void",))]
        if nm == "performOa":
            st = st.copy(); st.ts["oa"] = True
            self.oa = True
            return [(st, ("call", "q", ("oa", "bound"), (), ()))]
        if nm in FREE:
            st = st.copy()
            a0 = args[0] if args else ("?",)
            nlp = mentions(ip.val_of(st, a0) if a0[0] != "lref" else a0, lambda x: x[0] == "f" and len(x) == 3 and x[2] == "nlp_") or mentions(a0, lambda x: x[0] == "f" and len(x) == 3 and x[2] == "nlp_")
            if nm == "fixIntegers":
                if nlp:
                    st.ts["fixed"] = "fixed"
                    p = self.point(ip, st, args[1])
                    st.ts["from"] = p
                return [(st, ("void",))]
            if nm in ("relaxIntegers", "refixIntegers"):
                if nlp and st.ts.get("fixed") in ("fixed", "solved"): st.ts["fixed"] = "fixed"   # by the integer tolerance only
                return [(st, UNK if False else ("call", "q", ("help", nm), (), ()))]
            if nm == "isDifferentOnIntegers":
                a, b = av(len(args) - 2), av(len(args) - 1)
                srcs = {self.src(st, a), self.src(st, b)}
                k = "lp" if ("lp", "getColSolution") in srcs else "mip" if ("mip", "getLastSolution") in srcs else "?"
                ok = ("nlp", "getColSolution") in srcs and k != "?"
                v = ("call", "q", ("diff", k if ok else "?"), (), ())
                st.facts = HD({x: y for x, y in st.facts.items() if not hasq(x, "diff")})
                return [(st, v)]
            if nm == "integerFeasible":
                st.facts = HD({x: y for x, y in st.facts.items() if not hasq(x, "int")})
                return [(st, ("call", "q", ("int", "feasible"), (), ()))]
            if nm == "installCuts":
                if st.ts.get("uncut") == "cut": st.ts["uncut"] = None
                return [(st, ("void",))]
        if nm in CUT and w == "nlp":
            st = st.copy()
            cs = any(mentions(a, lambda x: x == ("p", "cs") or x[0] == "v" and x[-1] == "cs") for a in args)
            st.ts["ncut"] = True
            if cs and st.ts.get("uncut") == "point": st.ts["uncut"] = "cut"
            if nm == "getOuterApproximation" and len(args) >= 2:
                p = av(1)
                # once the user asked to abort the NLP is not solved any more: only the rejected point itself can be used
                if len(args) >= 5 and not isq(p, "nlp", "getColSolution") and not (st.ts.get("abort") and self.src(st, p) in (("lp", "getColSolution"), ("mip", "getLastSolution"))):
                    self.viol.append(("C15.cutoff-point", n, st, "point", "the linearisation is not taken at the point of the last NLP solve"))
            return [(st, ("void",))]
        if nm in ("setColLower", "setColUpper", "setColBounds") and w == "nlp":
            st = st.copy()
            if st.ts.get("fixed"): st.ts["fixed"] = None
            return [(st, ("void",))]
        return None
    def src(self, st, v):
        if isq(v): return v[2]
        for k, t in st.ts.items():
            if isinstance(k, tuple) and k[0] == "tag" and t[0] in ("mip", "null") and st.env.get(k[1]) == v: return t
    def branch(self, ip, st, n, truth):
        if truth and mentions(ip.cv, lambda x: x == ("g", "BonminAbortAll")): st.ts["abort"] = True
        # no cuts were found: nothing to install
        if not truth and st.ts.get("uncut") == "cut" and mentions(ip.cv, lambda x: x[0] in ("pure", "call") and isinstance(x[1], str) and x[1].endswith("::sizeRowCuts")): st.ts["uncut"] = None
    def point(self, ip, st, a):
        loc = a[1] if a[0] in ("lref", "addr", "obj") else None
        if loc is None: return None
        v = ip.read(st, ("f", ("obj", loc), "solution_"))
        return self.src(st, v)
    def assign(self, ip, st, n, loc, val): return self.note(ip, st, n, loc, val)
    def decl(self, ip, st, v, loc, val):
        if val is not None:
            r = self.note(ip, st, v, loc, val)
            if r is not None: st.env[loc] = r
    def note(self, ip, st, n, loc, val):
        if loc[0] == "f" and loc[1] == ("this",) and self.f.get("cls") == MIP:
            self.mips.append((n, st.copy(), loc[2], val)); return
        if loc[0] != "v" or loc[1] != "m": return
        if isq(val) and val[2][0] == "mip" and val[2][1] in ("optimal", "getLastSolution"): st.ts[("tag", loc)] = ("mip", val[2][1]); self.tagged.add(loc[3])
        elif ("tag", loc) in st.ts:
            if val == ZERO: st.ts[("tag", loc)] = ("null",)
            else: del st.ts[("tag", loc)]
        # bounds
        t = "big" if val[0] == "c" and isinstance(val[1], (int, float)) and val[1] >= BIG else self.tag(ip, st, val)
        if t is None and self.gap(ip, st, val): t = "gap"
        if t == "big":
            p = self.proof(ip, st)
            self.bounds.append((n, st.copy(), p)); t = "proof"
        if t or ("bd", loc) in st.ts: st.ts[("bd", loc)] = t or "bad"
        if loc[3] == "cutoff": self.cutoffs.append((n, st.copy(), val))
        if loc[3] in self.names and val[0] in ("op", "pure", "cond") and not (val[0] == "pure" and "sizeRowCuts" in val[1]):
            # from here on a value of its own, equal to no other
            sym = ("call", "q", ("val", loc[3]), (), ())
            if val == sym: return None
            st.facts = HD({a: b for a, b in st.facts.items() if not mentions(a, lambda x: x == sym)})
            st.env = HD({k: ("old", k) if mentions(v, lambda x: x == sym) else v for k, v in st.env.items()})
            return sym
    def tag(self, ip, st, v):
        """what is known about a value as a lower bound"""
        for k, t in st.ts.items():
            if isinstance(k, tuple) and k[0] == "bd" and st.env.get(k[1]) == v: return t
        if v[0] == "c" and isinstance(v[1], (int, float)):
            return "none" if v[1] <= -BIG else "big" if v[1] >= BIG else None
        if isq(v, "mip", "lowBound") or isq(v, "mip", "getLowerBound") or isq(v, "old mip", "lowBound"): return "low"
        if v[0] in ("pure", "call") and isinstance(v[1], str) and v[1].split("::")[-1] in ("max", "CoinMax"):
            a = [self.tag(ip, st, ip.val_of(st, x)) for x in (v[3] if len(v) > 3 else ())]
            if len(a) == 2 and all(a) and "big" not in a: return "low" if "low" in a else a[0]
            return None
        return None
    def isbound(self, ip, st, v): return self.tag(ip, st, v) in ("low", "none", "proof")
    def proof(self, ip, st):
        """reason why nothing is left below the cutoff, or None with the reason missing"""
        why = []
        for a, b in st.facts.items():
            if a[0] == "lt" and b is False and self.isbound(ip, st, a[1]) and self.iscut(ip, st, a[2]): return "bound"
            if a[0] == "lt" and b is True and mentions(a[2], lambda x: x[0] == "f" and len(x) == 3 and x[2] == "gap_tol_") and (self.tag(ip, st, a[1]) == "gap" or self.gap(ip, st, a[1])): return "gap"
        if ip.truth(st, ("call", "q", ("diff", "lp"), (), ())) is False:
            if ip.truth(st, Q("lp", "isProvenOptimal")) is True: return self.nlpok(ip, st, "same/lp")
            return "!the LP is not known to be solved"
        if ip.truth(st, ("call", "q", ("diff", "mip"), (), ())) is False:
            return self.nlpok(ip, st, "same/mip")
        # the last sub-MILP was solved to the end and has no point
        for k, t in st.ts.items():
            if isinstance(k, tuple) and k[0] == "tag" and t == ("mip", "optimal") and ip.truth(st, st.env.get(k[1], UNK)) is True:
                for k2, t2 in st.ts.items():
                    if isinstance(k2, tuple) and k2[0] == "tag" and t2 == ("mip", "getLastSolution") and ip.truth(st, st.env.get(k2[1], UNK)) is False: return "empty"
        if ip.truth(st, Q("mip", "optimal")) is True and ip.truth(st, Q("mip", "getLastSolution")) is False: return "empty"
        return "!nothing on the path shows that no better point is left"
    def nlpok(self, ip, st, p):
        # OsiTMINLPInterface::resolve throws when the NLP is left unsolved (C02); what nlp_failure_behavior=fathom turns into an answer was asked for
        return p if st.ts.get("nlp") else "!no NLP was solved for the integers that repeat"
    def iscut(self, ip, st, v):
        for k in st.env:
            if k[0] == "v" and k[1] == "m" and k[3] in ("cutoff", "ub") and st.env[k] == v: return True
        return v[0] == "p" and v[1] == "cutoff" or mentions(v, lambda x: x[0] == "v" and len(x) == 4 and x[3] in ("cutoff", "ub")) or mentions(v, lambda x: x[0] == "lv" and x[2] in ("cutoff", "ub")) or hasq(v, "nlp", "getObjValue") or hasq(v, "val")
    def gap(self, ip, st, v):
        if v[0] == "op" and v[1] == "/": v = v[2]
        if v[0] == "op" and v[1] == "-" and len(v) == 4: return self.isbound(ip, st, v[3]) and not self.isbound(ip, st, v[2])
        if v[0] in ("op", "un", "neg"): return any(isinstance(x, tuple) and self.isbound(ip, st, x) for x in v[1:])
        return False
    def ret(self, ip, st, n, val):
        if len(ip.fstack) == 1: self.rets.append((n, st, val))
    def head(self, ip, st, n):
        for k, t in st.ts.items():
            if isinstance(k, tuple) and k[0] == "tag" and t == ("null",) and st.env.get(k[1], ZERO)[0] != "c": st.facts[("nz", st.env[k[1]])] = False
    def loop(self, ip, st, n):
        if any(m["k"] == "call" and m.get("name") == "fixIntegers" for m in walk(n)): st.ts["pass"] = "in"; st.ts["loop"] = True
    def iter_end(self, ip, st, n):
        # the answers of this pass are not asked for again in the next
        st.facts = HD({a: b for a, b in st.facts.items() if not mentions(a, lambda x: x[0] == "call" and x[1] == "q")})
        for k in [k for k, t in st.ts.items() if k in ("set", "from", "nlp", "ncut", "fixed") or isinstance(k, tuple) and (k[0] == "src" or k[0] == "bd" and t == "gap")]: del st.ts[k]

def run(P, R):
    R.rule("C15.accept", "a point is handed to the search only after the NLP was solved to optimality, with that NLP's point and value, better than the cutoff")
    R.rule("C15.fixed", "the NLP whose point is handed on was solved with the integers fixed at the integer point (or its integrality was checked)")
    R.rule("C15.close", "a node is declared closed only where the path proves it: bound reaches the cutoff, gap within tolerance, integers repeat, or the sub-MILP is proved empty")
    R.rule("C15.cutoff-point", "each integer point put to the NLP is followed by cuts at the NLP's point, installed before the relaxation is solved again")
    R.rule("C15.cutoff", "the cutoff is lowered only after a point was accepted, and below its value")
    R.rule("C15.pass", "the bound found is passed on unchanged, and no integer point escapes the check")
    R.rule("C15.mip", "the sub-MILP solver reports optimality, bound and point as the branch-and-bound run proved them")
    fs = [f for f in P.F.values() if f["name"] == "performOa" and f.get("cls") and DEC in P.bases(f["cls"]) and f.get("b") is not None]
    R.atleast("decomposition methods", len(fs), 3)
    nset = nclose = 0
    for f in sorted(fs, key=lambda x: x["fn"]):
        h = H(P, f); ip = Interp(P, h)
        res = ip.run(f, St()); R.ran(ip)
        R.count("paths of " + f["fn"], len(res))
        for rule, n, st, c, msg in h.viol: R.ob(); R.v(rule, f, n.get("l"), c, msg, st.path())
        R.ob(len(h.sets)); nset += len(h.sets)
        for n, st, a in h.sets: accept(P, R, f, h, ip, n, st, a, True)
        for n, st, p in h.bounds:
            R.ob(); nclose += 1
            if p[0] == "!": R.v("C15.close", f, n.get("l"), "close", "the node is closed although " + p[1:], st.path())
        for n, st, v in h.cutoffs: R.ob(); cutoff(R, f, h, ip, n, st, v)
        for n, st, v in h.rets:
            R.ob()
            t = h.tag(ip, st, v)
            if t == "big":
                nclose += 1
                p = h.proof(ip, st)
                if "passBound_" in {x["f"] for c in [P.C[f["cls"]]] for x in c["fields"]} and ip.truth(st, ip.read(st, ("f", ("this",), "passBound_"))) is not True: R.v("C15.close", f, n.get("l"), "passBound_", "the node is closed although claiming convergence was not asked for", st.path())
                if p[0] == "!": R.v("C15.close", f, n.get("l"), "return", "the node is closed although " + p[1:], st.path())
            elif t is None or t == "bad": R.v("C15.close", f, n.get("l"), "bound", "what is returned is no bound of the sub-MILP (%s)" % str(v)[:80], st.path())
            if st.ts.get("uncut") == "point": R.v("C15.cutoff-point", f, n.get("l"), "end", "the last integer point put to the NLP is not cut off", st.path())
    R.atleast("points handed to the search", nset, 3); R.atleast("places where a node is closed", nclose, 4)
    others(P, R)
    mip(P, R)

def accept(P, R, f, h, ip, n, st, a, dec):
    def bad(rule, c, m): R.v(rule, f, n.get("l"), c, m, st.path())
    if ip.truth(st, Q("nlp", "isProvenOptimal")) is not True: bad("C15.accept", "unsolved", "a point is accepted although the NLP is not known to be solved to optimality")
    src = st.ts.get(("src", root(a[0])))
    if not (src and isq(src, "nlp", ("getColSolution",))) and not isq(a[0], "nlp", "getColSolution"): bad("C15.accept", "point", "the point accepted is not that of the last NLP solve")
    if len(a) > 2 and not isq(a[2], "nlp", "getObjValue"): bad("C15.accept", "value", "the value accepted is not that of the last NLP solve (%s)" % str(a[2])[:60])
    if dec:
        if st.ts.get("nlp") == "feas": bad("C15.accept", "feasibility", "the point of a feasibility problem is accepted")
        if not any(x[0] == "lt" and b is True and hasq(x[1], "nlp", "getObjValue") and h.iscut(ip, st, x[2]) for x, b in st.facts.items()): bad("C15.accept", "cutoff", "a point is accepted that is not known to be better than the cutoff")
        if st.ts.get("fixed") != "solved": bad("C15.fixed", "integers", "the NLP was not solved with the integers fixed at the integer point")
        elif st.ts.get("from") not in (("lp", "getColSolution"), ("mip", "getLastSolution"), ("null",)): bad("C15.fixed", "point", "the integers are not fixed at the point of the relaxation or sub-MILP last solved (%s)" % str(st.ts.get("from"))[:60])

def cutoff(R, f, h, ip, n, st, v):
    def bad(c, m): R.v("C15.cutoff", f, n.get("l"), c, m, st.path())
    if not st.ts.get("set"): bad("early", "the cutoff is changed on a path where no point was accepted"); return
    vals = lambda x: hasq(x, "nlp", "getObjValue") or h.iscut(ip, st, x)
    if not mentions(v, lambda x: isinstance(x, tuple) and x and isinstance(x[0], str) and vals(x)): bad("value", "the new cutoff does not follow from the value of the point accepted (%s)" % str(v)[:80]); return
    if v[0] == "op" and v[1] == "*" and len(v) == 4:
        for u, w in ((v[2], v[3]), (v[3], v[2])):
            if vals(u) and w[0] == "op" and w[1] in "+-" and len(w) == 4 and w[2] == C(1):
                p = ip.known(st, ("lt", ZERO, u))
                if p is None and ip.known(st, ("lt", u, ZERO)) is True: p = False
                R.ob()
                if p is None or p != (w[1] == "-"): bad("side", "the new cutoff is above the value of the point accepted when that is %s" % ("negative" if w[1] == "-" else "positive"))

class HG(H):
    """OaDecompositionBase::generateCuts: what is done around performOa."""
    def rel(self, n):
        return n["k"] == "call" and n.get("name") in ("mipFeasible", "insert", "doLocalSearch") or H.rel(self, n)
    def call(self, ip, st, n, obj, args):
        nm = n.get("name")
        if n["k"] == "call" and nm == "mipFeasible": return [(st, Q("info", nm))]
        if n["k"] == "call" and nm == "doLocalSearch": return [(st, Q("ls", nm))]
        if n["k"] == "call" and nm == "insert" and n.get("cls") == "OsiCuts":
            st = st.copy(); st.ts["ins"] = True
            return [(st, ("void",))]
        return H.call(self, ip, st, n, obj, args)

class HN(H):
    """OaNlpOptim::generateCuts: the relaxation may be accepted after its integrality was tested."""
    def __init__(self, P, f):
        H.__init__(self, P, f)
        asg = {}
        for n in walk(f["b"]):
            if n["k"] == "decl":
                for v in n["v"]: asg.setdefault(v["id"], []).append(v.get("e"))
            elif n["k"] == "assign" and peel(n["a"])["k"] == "var": asg.setdefault(peel(n["a"])["id"], []).append(n["b"] if n["op"] == "=" else None)
            elif n["k"] == "un" and n["op"] in ("++", "--") and peel(n["e"])["k"] == "var": asg.setdefault(peel(n["e"])["id"], []).append(None)
        self.flags = {i for i, l in asg.items() if all(e is None and len(l) > 1 and k == 0 or e is not None and peel(e)["k"] in ("int", "bool", "num", "lit") for k, e in enumerate(l))}
    def flagged(self, k): return k[0] == "v" and k[2] in self.flags
    def call(self, ip, st, n, obj, args):
        if n["k"] == "call" and n.get("name") == "isInteger": return [(st, Q("is", "isInteger"))]
        return H.call(self, ip, st, n, obj, args)
    def rel(self, n): return n["k"] == "call" and n.get("name") == "isInteger" or H.rel(self, n)
    def branch(self, ip, st, n, truth):
        v = ip.cv
        if isq(v, "is") or v[0] == "b" and v[1][0] == "nz" and isq(v[1][1], "is"):
            pol = truth if isq(v, "is") else truth == v[2]
            if not pol: st.ts["it"] = "ok"
        if v[0] == "b" and v[1][0] == "lt" and hasq(v[1], "nlp", "getColSolution"):
            a, b = v[1][1], v[1][2]; t = truth == v[2]     # t: a < b
            if a[0] == "c" and hasq(b, "nlp", "getColSolution") and a[1] <= 1e-5: st.ts["it" if not t else "frac"] = "ok" if not t else "seen"
            elif b[0] == "c" and hasq(a, "nlp", "getColSolution") and b[1] <= 1e-5: st.ts["it" if t else "frac"] = "ok" if t else "seen"
    def inside(self, n):
        return any(m["k"] == "call" and m.get("name") == "isInteger" for m in walk(n)) and not any(m["k"] == "call" and m.get("name") in ("setColBounds", "setColLower", "setColUpper") for m in walk(n))
    def loop(self, ip, st, n):
        for k, v in ip.pre_loop.env.items():
            if self.flagged(k) and v[0] == "c": st.ts[("flag", k)] = v
        st.ts.pop("it", None)
    def head(self, ip, st, n):
        for k, t in st.ts.items():
            if isinstance(k, tuple) and k[0] == "flag": st.env[k[1]] = t
    def iter_end(self, ip, st, n):
        for k, v in st.env.items():
            if self.flagged(k) and v[0] == "c": st.ts[("flag", k)] = v
        if self.inside(n):
            if st.ts.pop("it", None) != "ok" and "frac" not in st.ts: st.ts["frac"] = "untested"
            if st.ts.get("frac") == "seen": pass
    def loop_exit(self, ip, sts, n):
        for s in sts:
            for k in [k for k in s.ts if isinstance(k, tuple) and k[0] == "flag"]: del s.ts[k]
            s.ts.pop("it", None)
            if self.inside(n):
                full = any(a[0] == "lt" and b is False and mentions(a[2], lambda x: x[0] in ("pure", "call") and isinstance(x[1], str) and x[1].endswith("::getNumCols")) for a, b in s.facts.items())
                if "frac" not in s.ts: s.ts["frac"] = "done" if full else "partial"
        return sts

def others(P, R):
    g = P.fn(DEC + "::generateCuts") if hasattr(P, "fn") else next(f for f in P.F.values() if f["fn"] == DEC + "::generateCuts")
    h = HG(P, g); ip = Interp(P, h); res = ip.run(g, St()); R.ran(ip)
    R.need(h.oa, "OaDecompositionBase::generateCuts no longer calls performOa")
    for n, st, v in h.passed:
        R.ob()
        if not isq(v, "oa", "bound"): R.v("C15.pass", g, n.get("l"), "bound", "the bound passed on is not the one performOa returned (%s)" % str(v)[:60], st.path())
    R.atleast("bounds passed on", len(h.passed), 1)
    for n, st, a in h.sets: R.ob(); R.v("C15.accept", g, n.get("l"), "direct", "a point is handed on without the check of performOa", st.path())
    for k, st, v in res:
        if k != "ret": continue
        R.ob()
        if st.ts.get("oa") or st.ts.get("ins") or ip.truth(st, Q("info", "mipFeasible")) is False: continue
        if ip.truth(st, ("call", "q", ("int", "feasible"), (), ())) is False and ip.truth(st, Q("ls", "doLocalSearch")) is False: continue
        R.v("C15.pass", g, g["l"], "escape", "a path leaves generateCuts with an integer point that was neither checked nor cut off", st.path())
    fs = [f for f in P.F.values() if f["fn"] == "Bonmin::OaNlpOptim::generateCuts" and f.get("b") is not None]
    R.need(fs, "OaNlpOptim::generateCuts")
    for f in fs:
        h = HN(P, f); ip = Interp(P, h); ip.run(f, St()); R.ran(ip)
        R.atleast("points OaNlpOptim hands on", len(h.sets), 1)
        for n, st, a in h.sets:
            R.ob(); accept(P, R, f, h, ip, n, st, a, False)
            fr = st.ts.get("frac")
            if fr != "done": R.v("C15.fixed", f, n.get("l"), "integrality", {"seen": "a fractional point is accepted", "untested": "a point is accepted although the integrality of a column was not tested", "partial": "a point is accepted although not all columns were tested", None: "a point is accepted without a test of its integrality"}[fr], st.path())
    # nobody else hands points on
    for f in P.F.values():
        if f.get("b") is None: continue
        for n in walk(f["b"]):
            if n["k"] == "call" and n.get("name") == "setSolution" and n.get("cls") in ("OsiBabSolver", "Bonmin::BabInfo", "Bonmin::AuxInfo"):
                R.ob(); R.count("setSolution call sites")

def mip(P, R):
    fs = [f for f in P.F.values() if f.get("cls") == MIP and f.get("b") is not None and any(n["k"] == "call" and n.get("name") == "branchAndBound" and n.get("cls") == "CbcModel" for n in walk(f["b"]))]
    R.atleast("sub-MILP solves", len(fs), 2)
    for f in sorted(fs, key=lambda x: x["fn"]):
        h = HM(P, f); ip = Interp(P, h); res = ip.run(f, St()); R.ran(ip)
        R.atleast("runs of " + f["name"], h.runs, 1)
        for k, st, v in res:
            if k != "ret" or not st.ts.get("ran"): continue
            def bad(c, m): R.v("C15.mip", f, f["l"], c, m, st.path())
            T = ("this",)
            o, l, x = [ip.read(st, ("f", T, n)) for n in ("optimal_", "lowBound_", "integerSolution_")]
            R.ob(3)
            t = ip.truth(st, o); pr = [Q("cbc", "isProvenOptimal"), Q("cbc", "isProvenInfeasible")]
            if t is True and not any(ip.truth(st, q) is True for q in pr): bad("optimal_", "the run is reported as complete although neither optimality nor infeasibility is proved")
            elif t is None and not (isq(o, "cbc", ("isProvenOptimal", "isProvenInfeasible")) or h.bool(o)): bad("optimal_", "what is reported as complete is not what the run proved (%s)" % str(o)[:60])
            if not isq(l, "cbc", "getBestPossibleObjValue"): bad("lowBound_", "the bound reported is not the bound of the run (%s)" % str(l)[:60])
            tx = ip.truth(st, x)
            if tx is not False:
                s = st.ts.get(("src", root(x)))
                if not (s and isq(s, "cbc", "bestSolution")): bad("integerSolution_", "the point reported is not the best point of this run")
                elif ip.truth(st, Q("cbc", "getSolutionCount")) is False: bad("integerSolution_", "a point is reported although the run found none")
            elif ip.truth(st, Q("cbc", "getSolutionCount")) is True: bad("integerSolution_/lost", "the run found a point but none is reported, so that the problem passes for infeasible")
            if st.ts.get("cut") != "param": bad("cutoff", "the run is not limited by the cutoff it was asked for (%s)" % st.ts.get("cut"))

class HM(H):
    def __init__(self, P, f): H.__init__(self, P, f); self.runs = 0
    def rel(self, n): return n["k"] == "call" and n.get("cls") == "CbcModel" and n.get("name") == "setCutoff" or H.rel(self, n)
    def bool(self, o):
        if not isinstance(o, tuple): return True
        if o[0] == "op" and o[1] in ("||", "|"): return all(self.bool(x) for x in o[2:])
        if o[0] == "b": return o[2] is True and self.bool(o[1][1]) and o[1][0] == "nz"
        return isq(o, "cbc", ("isProvenOptimal", "isProvenInfeasible"))
    def call(self, ip, st, n, obj, args):
        if n["k"] == "call" and n.get("cls") == "CbcModel" and n.get("name") == "setCutoff":
            st = st.copy(); v = ip.val_of(st, args[0]); st.ts["cut"] = "param" if v == ("p", self.f["p"][0]["name"]) else str(v)[:40]
            return [(st, ("void",))]
        r = H.call(self, ip, st, n, obj, args)
        if n["k"] == "call" and n.get("cls") == "CbcModel" and n.get("name") == "branchAndBound" and r:
            self.runs += 1
            for s, _ in r:
                s.ts["ran"] = True
                for k in [k for k in s.ts if isinstance(k, tuple) and k[0] == "src"]: del s.ts[k]
        return r
