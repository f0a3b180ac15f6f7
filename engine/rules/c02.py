"""Classification of NLP solver outcomes."""
from .common import *

# What each Ipopt outcome is, in Bonmin's vocabulary (BonTNLPSolver.hpp and the
# meaning Ipopt documents for its own codes).
IPOPT = {
 "Solve_Succeeded": {"solvedOptimal"},
 "Solved_To_Acceptable_Level": {"solvedOptimalTol"},
 "Feasible_Point_Found": {"solvedOptimal"},
 "Infeasible_Problem_Detected": {"provenInfeasible"},
 "Diverging_Iterates": {"unbounded"},
 "Search_Direction_Becomes_Too_Small": {"doesNotConverge"},
 "User_Requested_Stop": {"iterationLimit"},
 "Maximum_Iterations_Exceeded": {"iterationLimit"},
 "Restoration_Failed": {"iterationLimit"},
 "Error_In_Step_Computation": {"computationError"},
 "Unrecoverable_Exception": {"computationError"},
 "Insufficient_Memory": {"computationError"},
 "Not_Enough_Degrees_Of_Freedom": {"notEnoughFreedom"},
 "Invalid_Problem_Definition": {"illDefinedProblem"},
 "Invalid_Option": {"illegalOption"},
 "Invalid_Number_Detected": {"illegalOption"},
 "NonIpopt_Exception_Thrown": {"externalException"},
 "Internal_Error": {"exception"},
 "Maximum_CpuTime_Exceeded": {"timeLimit"},
 "Maximum_WallTime_Exceeded": {"timeLimit", "exception"},
}
FAIL = {"iterationLimit", "computationError", "illDefinedProblem", "illegalOption", "externalException", "exception"}
ERR = FAIL | {"notEnoughFreedom", "doesNotConverge"}
OSI = "Bonmin::OsiTMINLPInterface::"
PRED = {  # predicate -> statuses for which it must be true
 OSI + "isAbandoned": FAIL | {"doesNotConverge"},
 OSI + "isProvenOptimal": {"solvedOptimal", "solvedOptimalTol"},
 OSI + "isProvenPrimalInfeasible": {"provenInfeasible"},
 OSI + "isProvenDualInfeasible": {"unbounded"},
 OSI + "isDualObjectiveLimitReached": {"unbounded"},
 OSI + "isIterationLimitReached": {"iterationLimit"},
}
SOLVE = OSI + "solveAndCheckErrors"

def ret_bools(rs, ip_truth=None):
    out = set()
    for k, s, v in rs:
        if k != "ret": continue
        out.add(bool(v[1]) if v[0] == "c" else None)
    return out

def run(P, R):
    RS = P.enum("Bonmin::TNLPSolver::ReturnStatus")
    RS.pop("numReturnCodes", None)      # a count, not an outcome
    inv = {v: k for k, v in RS.items()}
    R.rule("C02.distinct", "the NLP outcome codes are pairwise distinct and an error is exactly a negative code")
    R.rule("C02.map", "constant propagation of every enumerator of the NLP solver's return enumeration through the status translation gives the outcome class that code denotes")
    R.rule("C02.pred", "each outcome predicate, evaluated for every outcome code, is true exactly for its class")
    R.rule("C02.retry", "path-sensitive: every exit of a node solve on which the last attempt is a failure goes through the robust re-solve, raises the failure, or was marked as fathom-on-failure by configuration")
    R.ob()
    if len(set(RS.values())) != len(RS):
        R.v("C02.distinct", "Bonmin::TNLPSolver::ReturnStatus", 0, "duplicate code", "two outcomes share one code")
    for n, v in RS.items():
        R.ob()
        if (v < 0) != (n in ERR):
            R.v("C02.distinct", "Bonmin::TNLPSolver::ReturnStatus", 0, n, "outcome %s has code %d: errors must be exactly the negative codes" % (n, v))
    # --- status translation --------------------------------------------
    IP = P.enum("Ipopt::ApplicationReturnStatus")
    f = P.fn("Bonmin::IpoptSolver::solverReturnStatus")
    arg = f["p"][0]["name"]
    R.atleast("ipopt_codes", len(IP), 15)
    used = set(IP.values())
    unknown = [("an unlisted code", max(used) + 7), ("an unlisted negative code", min(used) - 7)]
    for name, val in sorted(IP.items()) + unknown:
        R.ob()
        got = set()
        for k, s, v in const_returns(P, R, f, {arg: val}):
            got.add(inv.get(v[1], str(v)) if k == "ret" and v[0] == "c" else "%s:%s" % (k, v[0]))
        want = IPOPT.get(name, {"exception"} | FAIL)
        R.sample("%s -> %s" % (name, sorted(got)))
        if not got or not got <= want:
            R.v("C02.map", f, f["l"], name, "solver outcome %s is translated to %s, expected %s" % (name, sorted(got), sorted(want)))
    # --- predicates -------------------------------------------------------
    for q, true in PRED.items():
        f = P.fn(q)
        for name, val in RS.items():
            R.ob()
            got = ret_bools(const_returns(P, R, f, fields={"optimizationStatus_": val, "pretendSucceededNext_": 0}))
            if got != {name in true}:
                R.v("C02.pred", f, f["l"], name, "%s() is %s when the NLP outcome is %s, expected %s" % (f["name"], sorted(map(str, got)), name, name in true))
    # a fathomed failure ("pretend") silences the failure query only, and asking
    # a question never changes the answer to the next one
    PRE, STA = ("f", ("this",), "pretendSucceededNext_"), ("f", ("this",), "optimizationStatus_")
    for q, true in PRED.items():
        f = P.fn(q)
        for name, val in RS.items():
            for pre in (0, 1):
                R.ob()
                rs = const_returns(P, R, f, fields={"optimizationStatus_": val, "pretendSucceededNext_": pre})
                for k, s, v in rs:
                    if s.env.get(PRE, C(pre)) != C(pre) or s.env.get(STA, C(val)) != C(val):
                        R.v("C02.pred", f, f["l"], "query with an effect", "%s() changes the recorded outcome (or the mark of a fathomed failure) it reports on: asked twice, it answers differently" % f["name"], s.path()[-4:])
                        break
                if not pre: continue
                got = ret_bools(rs)
                want = {name in true} if q != OSI + "isAbandoned" else {False}
                if q == OSI + "isProvenPrimalInfeasible" and name in PRED[OSI + "isAbandoned"]: want = {True, False}
                if not got or not got <= want:
                    R.v("C02.pred", f, f["l"], name + " fathomed", "%s() is %s for outcome %s once a failure was fathomed by configuration, expected %s" % (f["name"], sorted(map(str, got)), name, sorted(want)))
    for q, true in (("Bonmin::TNLPSolver::isError", ERR),
                    ("Bonmin::TNLPSolver::isRecoverable", set(RS) - {"illDefinedProblem", "notEnoughFreedom", "illegalOption", "computationError"})):
        f = P.fn(q)
        for name, val in RS.items():
            R.ob()
            got = ret_bools(const_returns(P, R, f, {f["p"][0]["name"]: val}))
            if got != {name in true}:
                R.v("C02.pred", f, f["l"], name, "%s is %s for outcome %s, expected %s" % (f["name"], sorted(map(str, got)), name, name in true))
    solve_pipeline(P, R)
    overrides(P, R)
    solver_entry(P, R, RS, inv, IP)
    zero_dim(P, R, RS)
    node_status(P, R)

def solver_entry(P, R, RS, inv, IP):
    """The NLP solver's entry points return the translation of what the engine
    reported, or of the outcome of the fixed-variables shortcut."""
    R.rule("C02.entry", "for every code the NLP engine may return, the solve entry points return its translated class; the all-variables-fixed shortcut passes its own verdict through; only an abort request overrides this")
    for q in ("OptimizeTNLP", "ReOptimizeTNLP"):
        f = P.fn("Bonmin::IpoptSolver::" + q)
        cases = [("engine", n, v) for n, v in sorted(IP.items())] + [("fixed", n, RS[n]) for n in ("solvedOptimal", "provenInfeasible")]
        for mode, name, val in cases:
            class Hk(EvHooks):
                def call(self, ip, st, n, o, a):
                    if n.get("name") == "zeroDimension":
                        if mode == "fixed":
                            st = st.copy()
                            if a[1][0] == "lref": ip.write(st, a[1][1], C(val), n)
                            return [(st, ONE)]
                        return [(st, ZERO)]
                    if n.get("cls", "").startswith("Ipopt::") and n.get("name") in ("OptimizeTNLP", "ReOptimizeTNLP"):
                        st.ts["solved"] = 1
                        return [(st, C(val))]
            ip = Interp(P, Hk(P, relevant=lambda n: n.get("name") in ("zeroDimension", "OptimizeTNLP", "ReOptimizeTNLP", "solverReturnStatus") or n["k"] == "switch"))
            rs = ip.run(f); R.ran(ip); R.ob()
            want = IPOPT.get(name, {"exception"} | FAIL) if mode == "engine" else {name}
            got = set()
            for k, s, v in rs:
                if k != "ret": continue
                if any(b for a, b in s.facts.items() if a[0] == "nz" and mentions(a, lambda x: x == ("g", "BonminAbortAll"))): continue
                got.add(inv.get(v[1], "?") if v[0] == "c" else "?")
            if not got or not got <= want:
                R.v("C02.entry", f, f["l"], "%s %s" % (mode, name), "%s returns %s when the %s reports %s" % (q, sorted(got), "engine" if mode == "engine" else "fixed-variables check", name))

def zero_dim(P, R, RS):
    f = P.fn("Bonmin::TNLPSolver::zeroDimension")
    outp = f["p"][1]
    ip = Interp(P, EvHooks(P, relevant=lambda n: n["k"] == "assign"))
    rs = ip.run(f); R.ran(ip)
    seen = set()
    fin = {"SUCCESS": 0, "LOCAL_INFEASIBILITY": 0}
    for k, s, v in rs:
        if k != "ret": continue
        R.ob()
        loc = ("v", "m", outp["id"], outp["name"])
        out = s.env.get(loc)
        if v == ZERO: continue
        # constraint tests appear as  value - bound < -tol   or   tol < value - bound
        viol = any(b and a[0] == "lt" and (num(a[2]) and a[2][1] < 0 or num(a[1]) and 0 <= a[1][1] < 1e-5) and mentions(a, is_elem) for a, b in s.facts.items())
        seen.add((out, viol))
        if out == C(RS["provenInfeasible"]) and not viol:
            R.v("C02.entry", f, f["l"], "fixed point declared infeasible", "the fixed point is reported infeasible on a path where no constraint was found violated", s.path()[-8:])
        elif out == C(RS["solvedOptimal"]) and viol:
            R.v("C02.entry", f, f["l"], "violated fixed point declared optimal", "the fixed point is reported optimal on a path where a constraint was found violated", s.path()[-8:])
        elif out not in (C(RS["provenInfeasible"]), C(RS["solvedOptimal"])):
            R.v("C02.entry", f, f["l"], "fixed point without verdict", "the shortcut claims to have decided the problem but sets no outcome", s.path()[-8:])
    R.need(len(seen) >= 2, "zeroDimension: verdict paths not found")

def is_elem(x): return x[0] == "e" and len(x) == 3

def node_status(P, R):
    """The tree search's view of a node solve."""
    R.rule("C02.node", "the node verdict given to the tree search: 'infeasible' only for a failure when fathoming failures is configured; an unhandled failure beyond the allowed sequence is raised; 'treat as solved' only after the node was forced to branch")
    f = P.fn("Bonmin::CbcNlpStrategy::status")
    class Hk(EvHooks):
        def call(self, ip, st, n, o, a):
            nm = n.get("name")
            if nm in ("isAbandoned", "isProvenPrimalInfeasible"):
                key = "ab" if nm == "isAbandoned" else "inf"
                if key in st.ts: return [(st, C(st.ts[key]))]
                out = []
                for b in (1, 0):
                    if b and ((key == "ab" and st.ts.get("inf")) or (key == "inf" and st.ts.get("ab"))): continue
                    q = st.copy(); q.ts[key] = b; q.note(n["l"], "%s() is %s" % (nm, bool(b))); out.append((q, C(b)))
                return out
            if nm in ("forceBranchable", "forceInfeasible"):
                st.ts["forced"] = nm
            return None
    ip = Interp(P, Hk(P, relevant=lambda n: n.get("name") in ("isAbandoned", "isProvenPrimalInfeasible", "forceBranchable", "forceInfeasible"), noinline={OSI + "forceBranchable", OSI + "forceInfeasible", OSI + "isAbandoned", OSI + "isProvenPrimalInfeasible"}))
    rs = ip.run(f); R.ran(ip)
    kinds = set()
    for k, s, v in rs:
        R.ob()
        ab, forced = s.ts.get("ab"), s.ts.get("forced")
        pret = [b for a, b in s.facts.items() if a[0] == "nz" and isfield(a[1], "pretendFailIsInfeasible_")]
        if k == "throw":
            kinds.add("throw")
            if ab != 1: R.v("C02.node", f, f["l"], "error for a solved node", "an NLP failure is raised although the node solve was not a failure", s.path())
            if any(pret): R.v("C02.node", f, f["l"], "error although fathoming configured", "a failure is raised although fathoming failures is configured", s.path())
            continue
        kinds.add(v)
        if v == C(2) and not (ab == 1 and pret and all(pret) and forced == "forceInfeasible"):
            R.v("C02.node", f, f["l"], "node dropped", "a node is reported infeasible to the tree although it is not a failure that configuration says to fathom", s.path())
        if v == C(0) and forced != "forceBranchable":
            R.v("C02.node", f, f["l"], "solved without branching", "an unsolved or infeasible node is passed on as solved without being forced to branch", s.path())
        if v == C(-1) and (forced):
            R.v("C02.node", f, f["l"], "forced but no verdict", "the node's result was overridden but the tree is told there is no effect", s.path())
        if v == C(-1) and ab == 1:
            # a failure may have no effect only if one of the two handled cases is impossible: never
            R.v("C02.node", f, f["l"], "failure without effect", "a failed node solve is neither branched on, fathomed by configuration, nor raised", s.path())
        if v not in (C(0), C(-1), C(2)):
            R.v("C02.node", f, f["l"], "verdict %s" % (v,), "unexpected node verdict", s.path())
    R.need({"throw", C(0), C(2), C(-1)} <= kinds, "CbcNlpStrategy::status: expected verdicts not all found (%s)" % (kinds,))

class Pipe(EvHooks):
    keep = staticmethod(about_fields("BonminAbortAll", "pretendFailIsInfeasible_"))
    """Typestate: last attempt in {none, unknown, ok, failed}; failure handled?"""
    def __init__(self, P, top):
        EvHooks.__init__(self, P, relevant=lambda n: n["k"] == "call" and n.get("fn") in (SOLVE, OSI + "isAbandoned", OSI + "resolveForRobustness", OSI + "resolveForCost"),
                         noinline={SOLVE, OSI + "isAbandoned", OSI + "resolveForRobustness", OSI + "resolveForCost", OSI + "initialSolve", OSI + "resolve"} - {top})
    def call(self, ip, st, n, o, a):
        fn = n.get("fn")
        if fn == SOLVE:
            st.ts["last"] = "unknown"
        elif fn == OSI + "resolveForRobustness":
            st.ts["last"] = "ok"     # its own obligations are checked separately
        elif fn == OSI + "resolveForCost":
            pass
        elif fn == OSI + "initialSolve" and len(n["a"]) >= 1:
            st.ts["last"] = "ok"
        elif fn == OSI + "isAbandoned" and o == ("this",):
            last = st.ts.get("last", "none")
            if last in ("ok",): return [(st, ZERO)]
            if last == "failed": return [(st, ONE)]
            s1 = st.copy(); s1.ts["last"] = "failed"; s1.note(n["l"], "the solve was abandoned")
            s2 = st.copy(); s2.ts["last"] = "ok"
            return [(s1, ONE), (s2, ZERO)]
        return None
    def want_inline(self, ip, fn, call):
        # a helper that does nothing but raise the failure
        b = (fn.get("b") or {}).get("s") or []
        if b and b[-1]["k"] == "throw" and fn["fn"] not in self.noinline: return True
        return EvHooks.want_inline(self, ip, fn, call)

def solve_pipeline(P, R):
    # resolve(const char*), initialSolve(const char*): a failed solve must reach
    # the robust re-solve on every path where no abort was requested.
    for q in ("resolve", "initialSolve"):
        f = P.fn(OSI + q, 1)
        h = Pipe(P, OSI + q); h.noinline.discard(OSI + q)
        ip = Interp(P, h)
        rs = ip.run(f); R.ran(ip)
        n = 0
        for k, s, v in rs:
            n += 1; R.ob()
            if k != "ret": continue
            last = s.ts.get("last", "none")
            aborted = any(b for a, b in s.facts.items() if mentions(a, lambda x: x[0] == "g" and x[1] == "BonminAbortAll" or x == ("g", "BonminAbortAll")))
            if last in ("failed", "unknown") and not aborted:
                R.v("C02.retry", f, f["l"], "exit with %s solve" % last, "%s can return although the last NLP attempt %s and was neither retried nor reported" % (q, "failed" if last == "failed" else "was never examined"), s.path())
        R.need(n > 1, "no exits of %s analysed" % q)
    f = P.fn(OSI + "resolveForRobustness")
    h = Pipe(P, OSI + "resolveForRobustness")
    ip = Interp(P, h); rs = ip.run(f); R.ran(ip)
    thrown = pretended = bad_exit = 0
    for k, s, v in rs:
        R.ob()
        if k == "throw": thrown += 1; continue
        last = s.ts.get("last", "none")
        if last in ("ok",): continue
        pret = s.env.get(("f", ("this",), "pretendSucceededNext_"))
        cfg = [b for a, b in s.facts.items() if a[0] == "nz" and isfield(a[1], "pretendFailIsInfeasible_")]
        if pret == ONE and cfg and all(cfg): pretended += 1; continue
        bad_exit += 1
        R.v("C02.retry", f, f["l"], "exit with %s solve" % last, "the robust re-solve can return normally although every attempt failed and fathoming failures was not configured", s.path())
    if not bad_exit: R.need(thrown >= 1, "resolveForRobustness no longer raises an error on any path")
    # a pretended success concerns one failed node only: a new solve must forget it
    f = P.fn(SOLVE)
    h = EvHooks(P, relevant=lambda n: n["k"] == "assign" and n["a"].get("f") in ("pretendSucceededNext_", "optimizationStatus_"))
    h.keep = about_fields("optimizationStatus_")
    ip = Interp(P, h)
    st = St(); st.env[("f", ("this",), "pretendSucceededNext_")] = ONE
    rs = ip.run(f, st); R.ran(ip)
    for k, s, v in rs:
        R.ob()
        if k == "ret" and ("f", ("this",), "optimizationStatus_") in s.env and s.env.get(("f", ("this",), "pretendSucceededNext_")) != ZERO:
            R.v("C02.retry", f, f["l"], "pretended success outlives its solve", "after one fathomed failure every later NLP failure is taken for a success: the mark is still set when a new solve has been made", s.path()[-6:])
    # unrecoverable outcome must be thrown
    for name, val in P.enum("Bonmin::TNLPSolver::ReturnStatus").items():
        if name == "numReturnCodes": continue
        bad = name in ("illDefinedProblem", "notEnoughFreedom", "illegalOption", "computationError")
        class Hk(EvHooks):
            keep = staticmethod(about_fields("optimizationStatus_"))
            def call(self, ip, st, n, o, a):
                if n.get("name") in ("OptimizeTNLP", "ReOptimizeTNLP") and o is not None and isfield(o, "app_"):
                    st = st.copy(); st.ts["ran"] = 1
                    return [(st, C(val))]
                # the two predicates were decided for every outcome above
                if n.get("name") in ("isRecoverable", "isError") and st.ts.get("ran") and a and (ip.read(st, a[0][1]) if a[0][0] == "lref" and a[0][1][0] != "t" else a[0]) == C(val):
                    return [(st, ONE if n["name"] == "isError" else ZERO)]
                return None
            def read(self, ip, st, loc):
                # no callee but the solve itself sets the outcome of this interface
                return C(val) if st.ts.get("ran") and loc == ("f", ("this",), "optimizationStatus_") else None
        if not bad: continue
        ip = Interp(P, Hk(P, relevant=lambda n: n["k"] == "throw" or n.get("name") in ("isRecoverable", "OptimizeTNLP", "ReOptimizeTNLP")))
        rs = ip.run(f); R.ran(ip); R.ob()
        for k, s, v in rs:
            if k == "ret" and s.ts.get("ran"):
                R.v("C02.retry", f, f["l"], "unrecoverable " + name, "an unrecoverable NLP outcome (%s) is not raised as an error" % name, s.path()[-22:])
                break

class Force(EvHooks):
    keep = staticmethod(about_fields("check_solution"))
    def __init__(self, P, R, f):
        EvHooks.__init__(self, P, relevant=is_status_assign); self.R = R; self.f = f; self.sites = set()
    def assign(self, ip, st, n, loc, val):
        if loc[0] == "f" and loc[2] == "optimizationStatus_" and n.get("k") == "assign" and n["a"].get("cls") == "Bonmin::OsiTMINLPInterface":
            self.sites.add(id(n))
            if val[0] != "c" or len(ip.frames) > 1: return
            name = self.inv.get(val[1])
            # an explicit feasibility check of the point is a proof; nothing else is
            err = [a for a, b in st.facts.items() if b and a[0] == "lt" and not mentions(a[1], is_check) and mentions(a[2], is_check)]
            if name == "provenInfeasible" and err: return
            self.R.v("C02.force", self.f, n.get("l"), txt(n), "the NLP outcome is overwritten by the constant %s on a path where no check of the point found a violation beyond the tolerance" % name, st.path())

def is_check(x): return x[0] in ("call", "pure") and len(x) > 1 and x[1] == "Bonmin::TMINLP2TNLP::check_solution"
def is_status_assign(n): return n["k"] == "assign" and n["a"].get("f") == "optimizationStatus_"

def overrides(P, R):
    R.rule("C02.force", "every assignment of the outcome takes a solver's returned status or a saved outcome; it is forced to 'infeasible' only on paths where an explicit feasibility check of the point exceeded the tolerance")
    inv = {v: k for k, v in P.enum("Bonmin::TNLPSolver::ReturnStatus").items() if k != "numReturnCodes"}
    sites = 0
    for f in sorted(P.F.values(), key=lambda f: f["key"]):
        k = [n for n in walk(f.get("b")) if is_status_assign(n) and n["a"].get("cls") == "Bonmin::OsiTMINLPInterface"]
        if not k: continue
        sites += len(k); R.ob(len(k))
        h = Force(P, R, f); h.inv = inv
        ip = Interp(P, h); ip.run(f); R.ran(ip)
    R.atleast("outcome_assignments", sites, 8)
