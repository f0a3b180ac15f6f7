"""C14 each algorithm choice installs the parts that make it exact."""
import re, sys
from .common import *
from interp import HD
from extract import Broken

NDEBUG = False
SET = "Bonmin::BonminSetup"
OL = "Ipopt::OptionsList"
GETS = {"GetIntegerValue", "GetNumericValue", "GetEnumValue", "GetBoolValue", "GetStringValue"}
SETS = {"SetIntegerValue", "SetNumericValue", "SetStringValue", "SetIntegerValueIfUnset", "SetNumericValueIfUnset", "SetStringValueIfUnset"}
ALG = {"B_BB": 0, "B_OA": 1, "B_QG": 2, "B_Hyb": 3, "B_Ecp": 4, "B_IFP": 5}
LIN = [a for a in ALG if a != "B_BB"]
# component -> option that governs it (0/no = off)
MILP = {"CglGomory": "Gomory_cuts", "CglMixedIntegerRounding2": "mir_cuts", "CglTwomir": "2mir_cuts", "CglKnapsackCover": "cover_cuts", "CglClique": "clique_cuts",
        "CglFlowCover": "flow_cover_cuts", "CglLandP": "lift_and_project_cuts", "CglRedSplit": "reduce_and_split_cuts"}
HEU = {"Bonmin::HeuristicDiveFractional": "heuristic_dive_fractional", "Bonmin::HeuristicDiveVectorLength": "heuristic_dive_vectorLength", "Bonmin::HeuristicDiveMIPFractional": "heuristic_dive_MIP_fractional",
       "Bonmin::HeuristicDiveMIPVectorLength": "heuristic_dive_MIP_vectorLength", "Bonmin::HeuristicFPump": "heuristic_feasibility_pump", "Bonmin::HeuristicRINS": "heuristic_RINS", "Bonmin::HeuristicLocalBranching": "heuristic_local_branching"}
HEUBB = {"Bonmin::FixAndSolveHeuristic": "fix_and_solve_heuristic", "Bonmin::DummyPump": "dummy_pump_heuristic", "Bonmin::PumpForMinlp": "pump_for_minlp", "Bonmin::MilpRounding": "MILP_rounding_heuristic"}
OANLP, ECP, FP, OA2, CHK, DUM = ["Bonmin::" + x for x in ("OaNlpOptim", "EcpCuts", "MinlpFeasPump", "OACutGenerator2", "OaFeasibilityChecker", "DummyHeuristic")]
# what each algorithm is: component -> True (always), False (never)
MUST = {
 "B_OA": {OA2: True, FP: False, OANLP: False}, "B_QG": {OA2: False, FP: False, OANLP: False}, "B_Hyb": {OA2: False, FP: True},
 "B_Ecp": {OA2: False, FP: False, OANLP: False, ECP: True}, "B_IFP": {OA2: False, FP: True, OANLP: False},
}
BYOPT = {OANLP: "nlp_solve_frequency", ECP: "filmint_ecp_cuts"}
PRESET = {"B_OA": {"oa_decomposition.time_limit": 1e300}, "B_IFP": {"pump_for_minlp.time_limit": 1e300, "fp_pass_infeasible": 1}}
BRANCH = {"QP_STRONG_BRANCHING": ("Bonmin::BonChooseVariable", "Bonmin::QpBranchingSolver"), "LP_STRONG_BRANCHING": ("Bonmin::BonChooseVariable", "Bonmin::LpBranchingSolver"), "NLP_STRONG_BRANCHING": ("Bonmin::BonChooseVariable", None),
          "OSI_SIMPLE": ("OsiChooseVariable", None), "OSI_STRONG": ("OsiChooseStrong", None), "RANDOM": ("Bonmin::BonRandomChoice", None)}

def cut(v):
    """(prefixed, name) of an option name"""
    if v[0] == "copy": return cut(v[1])
    if v[0] == "str":
        s = v[1]
        return (True, s[7:]) if s.startswith("bonmin.") else (False, s)
    if v[0] == "cat" and v[2][0] == "str": return (True, v[2][1])
    return None

class H(EvHooks):
    rich = scoped = True
    def __init__(self, P, f, alg, track, val):
        EvHooks.__init__(self, P, relevant=self.rel, max_inline=4, cap=3000, size=9000)
        self.f = f; self.alg = alg; self.track = track; self.val = val; self.bad = []; self.npush = 0; self.unknown = []
        self.keep = lambda a: mentions(a, lambda x: x[0] == "uopt" and x[1] in track)
    def rel(self, n):
        if n["k"] == "call":
            if n.get("cls") == OL and n.get("name") in GETS | SETS: return True
            return n.get("name") in ("push_back", "emplace_back", "push_front", "insert") and "list" in str(n.get("cls")) or n.get("name") in ("extractLinearRelaxation", "setAuxiliaryInfo", "findIntegersAndSOS", "SetStrongBrachingSolver", "setTrustStrongForBound", "setTrustStrongForSolution", "setPriorities", "addSos", "setReassignLpSolver", "setNlp")
        if n["k"] == "assign" and peel(n["a"])["k"] == "idx": return any(m["k"] == "mem" and m["f"] == "intParam_" for m in walk(n["a"]))
        return n["k"] == "assign" and peel(n["a"])["k"] == "mem" and peel(n["a"])["f"] in ("continuousSolver_", "branchingMethod_", "algo_", "cgl", "heuristic", "frequency", "normal", "atSolution", "always")
    def want_inline(self, ip, fn, call):
        c = fn.get("cls") or ""
        if fn["name"] in ("use", "gatherParametersValues", "setPriorities", "addSos", "readOptionsFile"): return False
        if fn.get("ctor") and not ("CuttingMethod" in c or "HeuristicMethod" in c): return False
        if c and not (c == SET or c == "Bonmin::BabSetupBase" or "Method" in c): return ip.trivial(fn)
        return EvHooks.want_inline(self, ip, fn, call) or "Method" in c
    def read(self, ip, st, loc):
        return C(sys.float_info.max) if loc == ("g", "COIN_DBL_MAX") else None
    # -- the option store -------------------------------------------------
    def get(self, ip, st, n, args):
        k = cut(ip.val_of(st, args[0])); out = []
        if k is None: self.unknown.append((n.get("l"), txt(n["a"][0]))); return None
        pre = ip.val_of(st, args[2]) if len(args) > 2 else ("str", "")
        keys = [(True, k[1])] if pre != ("str", "") else []
        keys.append((k[0], k[1]) if pre == ("str", "") else (False, k[1]))
        loc = ip.deref(st, args[1][1]) if args[1][0] == "lref" else None
        for key in keys:
            v = st.ts.get(("opt", key))
            if v is not None:
                s = st.copy()
                if loc is not None: ip.write(s, loc, v, n)
                out.append((s, C(1))); return out
            if key[0] and k[1] == "algorithm":
                s = st.copy(); ip.write(s, loc, C(ALG[self.alg]), n); return [(s, C(1))]
            if key[0] and k[1] in self.val:
                # the user's choice, or not chosen
                u, d = self.val[k[1]]
                s = st.copy()
                if u == "default": continue
                if loc is not None: ip.write(s, loc, u, n)
                out.append((s, C(1))); return out
            if key[0] and k[1] not in self.track and k[1] not in self.val:
                s = st.copy()
                if loc is not None: ip.write(s, loc, ("uopt", k[1]), n)
                out.append((s, C(1)))
        # not set: the registered default
        s = st.copy()
        if loc is not None: ip.write(s, loc, self.val[k[1]][1] if k[1] in self.val else ("uopt", k[1]), n)
        out.append((s, C(0)))
        return out
    def setv(self, ip, st, n, args):
        k = cut(ip.val_of(st, args[0]))
        if k is None: self.unknown.append((n.get("l"), txt(n["a"][0]))); return None
        v = ip.val_of(st, args[1])
        if v[0] == "str": v = C({"no": 0, "yes": 1}.get(v[1], -1)) if v[1] in ("no", "yes") else v
        s = st.copy()
        if k[0] and k[1] in self.val and self.val[k[1]][0] != "default": return [(s, C(0))]      # the user's value is not overwritten
        s.ts[("opt", k)] = v
        return [(s, C(1))]
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call":
            if n.get("cls") == "OsiBabSolver" and len(args) == 1 and not n.get("copy"):
                st.ts[("bab", obj[1] if obj[0] in ("obj", "addr") else obj)] = ip.val_of(st, args[0])
            return None
        nm = n.get("name"); c = n.get("cls") or ""
        if c == "CoinMessageHandler": return [(st, obj if obj is not None else UNK)]
        if c == OL and nm in GETS:
            st = st.copy()
            st.facts = HD({a: b for a, b in st.facts.items() if self.keep(a) or not mentions(a, lambda x: x[0] == "uopt")})
            s_ = ip.site(n); st.ep = HD({"*O": s_, "*E": s_, "*W": s_})
            for k in [k for k, v in st.env.items() if v[0] == "uopt" and k[0] == "v"]: del st.env[k]
            return self.get(ip, st, n, args)
        if c == OL and nm in SETS: return self.setv(ip, st, n, args)
        if nm in ("push_back", "push_front", "emplace_back", "insert") and obj is not None and mentions(obj, lambda x: x[0] == "f" and len(x) == 3 and x[2] in ("cutGenerators_", "heuristics_")) and args:
            self.npush += 1
            a = args[-1]
            while a[0] == "copy": a = a[1]
            loc = a[1] if a[0] in ("lref", "addr", "obj") or a[0] == "i" and a[1][0] == "v" else None
            st = st.copy()
            os_ = [("obj", loc), ("obj", ip.deref(st, loc)), ip.deref(st, loc)] if loc is not None else [ip.val_of(st, a)]
            g = lambda f: next((st.env[("f", o, f)] for o in os_ if ("f", o, f) in st.env), ("?",))
            isc = mentions(obj, lambda x: x[0] == "f" and len(x) == 3 and x[2] == "cutGenerators_")
            p = g("cgl" if isc else "heuristic")
            if p[0] != "new": self.bad.append((n, st, "component", "what is installed is not a component made here (%s)" % str(p)[:60])); return [(st, ("void",))]
            t = p[2] if len(p) > 2 else "?"
            t = re.sub(r"^class ", "", str(t)).replace(" *", "")
            rec = (t, g("frequency"), g("normal"), g("atSolution"), g("always"), st.ts.get(("re", p)), st.ts.get(("nlp", p)), "c" if isc else "h")
            for k in [k for k in st.env if k[0] == "f" and k[1] in os_]: del st.env[k]
            for k in [k for k in st.ts if isinstance(k, tuple) and k[0] in ("re", "nlp") and k[1] == p]: del st.ts[k]
            if t.split('::')[-1] in self.track or t.split('::')[-1] in (CHK.split('::')[-1], DUM.split('::')[-1]):
                st.ts["inst"] = tuple(st.ts.get("inst", ())) + (rec,)
            return [(st, ("void",))]
        if nm in ("use", "gatherParametersValues", "readOptionsFile", "ignoreFailures", "passInMessageHandler", "SetRegisteringCategory"): return [(st, ("void",))]
        if nm == "setReassignLpSolver" and obj is not None and args:
            st = st.copy(); st.ts[("re", self.pv(ip, st, obj))] = ip.val_of(st, args[0]); return [(st, ("void",))]
        if nm == "setNlp" and obj is not None and args:
            st = st.copy(); st.ts[("nlp", self.pv(ip, st, obj))] = "nlp" if mentions(ip.val_of(st, args[0]), lambda x: x[0] == "f" and len(x) == 3 and x[2] == "nonlinearSolver_") else "?"; return [(st, ("void",))]
        if nm == "extractLinearRelaxation": st = st.copy(); st.ts["lin"] = "cont" if self.iscont(ip, st, args) else "?"; return [(st, ("void",))]
        if nm == "setAuxiliaryInfo":
            st = st.copy(); v = args[0]
            st.ts["aux"] = self.bab(ip, st, ip.val_of(st, v)); return [(st, ("void",))]
        if nm == "findIntegersAndSOS": st = st.copy(); st.ts["objs"] = True; return [(st, ("void",))]
        if nm in ("setPriorities", "addSos"): st = st.copy(); st.ts[nm] = True; return [(st, ("void",))]
        if nm == "setTrustStrongForBound" or nm == "setTrustStrongForSolution":
            st = st.copy(); st.ts[nm] = ip.val_of(st, args[0]); return [(st, ("void",))]
        if nm == "SetStrongBrachingSolver":
            st = st.copy(); v = ip.val_of(st, args[0])
            while v[0] in ("copy", "tmp") and len(v) > 1 and isinstance(v[1], tuple): v = v[1]
            st.ts["strong"] = typ(v); return [(st, ("void",))]
        return None
    def pv(self, ip, st, obj): 
        if obj[0] == "obj" and isinstance(obj[1], tuple) and obj[1] and obj[1][0] == "deref": return obj[1][1]
        return obj[1] if obj[0] == "obj" and isinstance(obj[1], tuple) and obj[1][0] == "new" else obj
    def iscont(self, ip, st, args):
        c = ip.read(st, ("f", ("this",), "continuousSolver_"))
        return any(mentions(a, lambda x: x == c) or mentions(ip.val_of(st, a), lambda x: x == c) or mentions(a, lambda x: x[0] == "f" and len(x) == 3 and x[2] == "continuousSolver_") for a in args)
    def bab(self, ip, st, v):
        v = v[1] if v[0] in ("obj", "addr") else v
        for k, t in st.ts.items():
            if isinstance(k, tuple) and k[0] == "bab" and (k[1] == v or mentions(v, lambda x: x == k[1])): return t
    def new(self, ip, st, n, val): pass
    def assign(self, ip, st, n, loc, val):
        if loc == ("f", ("this",), "algo_"): st.ts["algo"] = val
        if loc[0] == "e" and mentions(loc, lambda x: x[0] == "f" and len(x) == 3 and x[2] == "intParam_"): st.ts[("int", loc[2])] = val
        if loc[0] == "f" and loc[1] == ("this",) and loc[2] == "branchingMethod_": st.ts["method"] = typ(val); st.ts["before"] = bool(st.ts.get("objs") and st.ts.get("setPriorities") and st.ts.get("addSos"))
        if loc[0] == "f" and loc[1] == ("this",) and loc[2] == "continuousSolver_": st.ts["cont"] = "nlp" if mentions(val, lambda x: x[0] == "f" and len(x) == 3 and x[2] == "nonlinearSolver_") else typ(val) or "?"
        if loc[0] == "v" and loc[1] == "m" and mentions(val, lambda x: x[0] == "uopt") and not any(mentions(val, lambda x: x == ("uopt", t)) for t in self.track): return None

def typ(v):
    while v[0] in ("copy", "ctorval") and len(v) > 1 and isinstance(v[1], tuple): v = v[1]
    if v == ZERO: return None
    return re.sub(r"^class ", "", str(v[2])).replace(" *", "") if v[0] == "new" and len(v) > 2 else "?"

def runs(P, f, alg, track, val, env=None):
    h = H(P, f, alg, track, val); ip = Interp(P, h)
    st = St()
    st.env[("f", ("this",), "algo_")] = C(-1); st.env[("f", ("this",), "prefix_")] = ("str", "bonmin.")
    for p in f["p"]:
        if p["name"].startswith("create"): st.env[("v", "m", p["id"], p["name"])] = C(1)
    for k, v in (env or {}).items(): st.env[k] = v
    st.facts[("nz", ("i", ("f", ("this",), "options_")))] = True
    return h, ip, [(s, v) for k, s, v in ip.run(f, st) if k == "ret"]

def run(P, R):
    R.rule("C14.check", "an algorithm on a linear relaxation gets the feasibility check at every node and at solutions, and the heuristic that carries NLP solutions")
    R.rule("C14.parts", "each algorithm gets the generators its name promises and none it excludes")
    R.rule("C14.option", "a component governed by an option is installed exactly when the option asks for it, with the period configured")
    R.rule("C14.branch", "each variable-selection choice installs its chooser after the objects were found, and bounds of unreliable trial solvers are not trusted")
    R.rule("C14.pass", "what was set up is passed to the search unchanged")
    ent = [f for f in P.F.values() if f.get("cls") == SET and f.get("b") is not None and any(n["k"] == "call" and n.get("name") in ("initializeBBB", "initializeBHyb") for n in walk(f["b"]))]
    R.atleast("entry points of the setup", len(ent), 3)
    en = {e["name"]: e["v"] for q, x in P.E.items() if q.endswith("VarSelectStra_Enum") for e in x["v"]}
    spec = next(e["v"] for q, x in P.E.items() if q.endswith("BabSetupBase::IntParameter") for e in x["v"] if e["name"] == "SpecialOption")
    sh = lambda t: t.split("::")[-1]
    tot = 0
    full = next((f for f in ent if f["name"] == "initialize"), ent[0])     # the others differ before the common part only
    for f in sorted(ent, key=lambda x: x["l"]):
        def go(alg, comps, val):
            h, ip, res = runs(P, f, alg, {sh(c) for c in comps}, val); R.ran(ip); R.count("setup runs"); R.ob()
            for l, t in h.unknown: raise Broken("option name not resolved at line %s: %s" % (l, t))
            for n, st, c, m in h.bad: R.v("C14.parts", f, n.get("l"), c, m, st.path())
            R.need(res, "no path through " + f["fn"])
            return h, ip, res
        def inst(st): return st.ts.get("inst", ())
        for alg in ALG:
            h, ip, res = go(alg, [], {})
            tot += h.npush
            for st, _ in res:
                def bad(rule, c, m): R.v(rule, f, f["l"], alg + ": " + c, m, st.path())
                R.ob(5)
                if st.ts.get("algo") != C(ALG[alg]): bad("C14.parts", "remembered", "the setup does not remember its algorithm, which decides what a copy of it works on")
                if alg == "B_BB":
                    if st.ts.get("cont") != "nlp": bad("C14.check", "relaxation", "branch-and-bound does not work on the nonlinear relaxation (%s)" % st.ts.get("cont"))
                    if st.ts.get("aux") != C(2): bad("C14.check", "solver type", "the relaxation is not marked as nonlinear for the search (%s)" % str(st.ts.get("aux")))
                    if st.ts.get(("int", C(spec))) != C(16): bad("C14.check", "strategy", "the search is not told to use the strategy for nonlinear failures")
                    continue
                c = [r for r in inst(st) if sh(r[0]) == sh(CHK)]
                yes = lambda v: v == C(1) or v == ("c", True)
                no = lambda v: v is None or v == ZERO or v == ("c", False)
                if not any(r[1] == C(1) and yes(r[2]) and yes(r[4]) and no(r[5]) for r in c): bad("C14.check", "check at nodes", "no check of integer points is installed that runs at every node and is called again after each round (frequency 1, normal, always, on the solver it is given)")
                if not any(r[1] == C(1) and yes(r[3]) and yes(r[5]) for r in c): bad("C14.check", "check at solutions", "no check of integer points is installed that runs at solutions found elsewhere, on the search's solver")
                if not any(sh(r[0]) == sh(DUM) and r[6] == "nlp" for r in inst(st)): bad("C14.check", "carrier", "the heuristic that carries solutions of nonlinear problems to the search is not installed with the nonlinear solver")
                if st.ts.get("lin") != "cont" or st.ts.get("cont") in (None, "nlp", "?"): bad("C14.check", "relaxation", "the search does not get the linear relaxation of the problem")
                if st.ts.get("aux") != C(3): bad("C14.check", "solver type", "the relaxation is not marked as needing cuts at solutions (%s)" % str(st.ts.get("aux")))
                for o, v in PRESET.get(alg, {}).items():
                    R.ob()
                    x = next((st.ts[k] for k in ((("opt", (p_, o)) for p_ in (True, False))) if k in st.ts), None)
                    if not (x is not None and x[0] == "c" and x[1] >= v): bad("C14.parts", "preset " + o, "the algorithm does not preset %s (%s)" % (o, str(x)))
            if f is not full: continue
            # parts by name
            for T, want in MUST.get(alg, {}).items():
                o = {OANLP: "nlp_solve_frequency", ECP: "filmint_ecp_cuts", FP: "pump_for_minlp", OA2: "oa_decomposition"}[T]
                for u in (("default",),):        # what the user set explicitly is not overridden by the presets
                    h, ip, res = go(alg, [T], {o: (u[0], ("uopt", o + "/default"))})
                    for st, _ in res:
                        has = any(sh(r[0]) == sh(T) for r in inst(st)); R.ob()
                        if has != want: R.v("C14.parts", f, f["l"], "%s: %s" % (alg, sh(T)), "%s %s" % (sh(T), "is missing" if want else "is installed although the algorithm excludes it%s" % ("" if u[0] == "default" else " (user set %s)" % o)), st.path())
            # parts by option
            tab = dict(HEU); period = set()
            if alg == "B_BB": tab.update(HEUBB)
            else:
                if alg in ("B_Hyb", "B_Ecp"): tab.update(MILP); period |= set(MILP)
                for T, o in BYOPT.items():
                    if T not in MUST[alg]: tab[T] = o; period.add(T)
            for T, o in tab.items():
                for u in ((C(0), C(7), C(-5)) if T in period else (C(0), C(1))):
                    h, ip, res = go(alg, [T], {o: (u, u)}); seen = 0
                    for st, _ in res:
                        r = [r for r in inst(st) if sh(r[0]) == sh(T)]; R.ob(); seen += bool(r)
                        if u == C(0) and r: R.v("C14.option", f, f["l"], "%s: %s" % (alg, sh(T)), "%s is installed although %s switches it off" % (sh(T), o), st.path())
                        if len(r) > 1: R.v("C14.option", f, f["l"], "%s: %s twice" % (alg, sh(T)), "%s is installed twice" % sh(T), st.path())
                        for x in r:
                            if T in period and x[1] != u: R.v("C14.option", f, f["l"], "%s: %s period" % (alg, sh(T)), "%s does not run with the period %s sets (%s)" % (sh(T), o, str(x[1])[:40]), st.path())
                            if (x[7] == "c") != (T in MILP or T in BYOPT): R.v("C14.option", f, f["l"], "%s: %s kind" % (alg, sh(T)), "installed in the wrong list", st.path())
                        if u != C(0) and not r and not (sh(T) == "HeuristicFPump" and alg == "B_BB"): R.v("C14.option", f, f["l"], "%s: %s" % (alg, sh(T)), "%s is not installed although %s asks for it" % (sh(T), o), st.path())
                    if u != C(0) and not seen: R.v("C14.option", f, f["l"], "%s: %s" % (alg, sh(T)), "%s is never installed although %s asks for it" % (sh(T), o), [])
            # variable selection
            for nm, v in en.items():
                h, ip, res = go(alg, [], {"variable_selection": (C(v), C(v))})
                want, strong = BRANCH.get(nm, (None, None)) if alg == "B_BB" or nm in ("OSI_SIMPLE", "OSI_STRONG") else (None, None)
                for st, _ in res:
                    R.ob()
                    def bad(c, m): R.v("C14.branch", f, f["l"], "%s/%s: %s" % (alg, nm, c), m, st.path())
                    m = st.ts.get("method")
                    if (m and sh(m)) != (want and sh(want)): bad("chooser", "variable_selection installs %s, not %s" % (m, want)); continue
                    if want and not st.ts.get("before"): bad("objects", "the chooser is installed before the branching objects, priorities and SOS constraints are there")
                    if nm in ("QP_STRONG_BRANCHING", "LP_STRONG_BRANCHING", "NLP_STRONG_BRANCHING") and want:
                        if (st.ts.get("strong") and sh(st.ts["strong"])) != (strong and sh(strong)): bad("trial solver", "the trial solver is %s, not %s" % (st.ts.get("strong"), strong))
                        if st.ts.get("setTrustStrongForSolution") != ZERO and ip.truth(st, st.ts.get("setTrustStrongForSolution", C(1))) is not False: bad("solution", "points of trial solves are trusted as solutions")
                        if nm.startswith("QP") and ip.truth(st, st.ts.get("setTrustStrongForBound", C(1))) is not False: bad("bound", "bounds of the QP approximation are trusted although they need not be lower bounds")
    R.atleast("components installed (all algorithms)", tot, 40)
    passing(P, R)

class HP(EvHooks):
    rich = scoped = True
    def __init__(self, P, what):
        EvHooks.__init__(self, P, relevant=lambda n: n["k"] == "call" and n.get("name") in ("addCutGenerator", "addHeuristic", "setMustCallAgain", "assignLpInterface", "setModel", "reassignLpsolver"), max_inline=2, cap=300, size=300)
        self.what = what; self.bad = []; self.n = 0
    def want_inline(self, ip, fn, call): return fn["name"] != "reassignLpsolver" and EvHooks.want_inline(self, ip, fn, call)
    def fld(self, v, f): return mentions(v, lambda x: x[0] == "f" and len(x) == 3 and x[2] == f)
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        nm = n.get("name"); av = lambda i: ip.val_of(st, args[i])
        if nm == "reassignLpsolver": return [(st, ("call", "q", ("re",), (), ()))]
        if nm == "addCutGenerator":
            self.n += 1; st = st.copy(); st.ts["added"] = st.ts.get("added", 0) + 1
            for i, f, d in ((0, "cgl", None), (1, "frequency", 1), (3, "normal", 1), (4, "atSolution", 0)):
                if i >= len(args) or not self.fld(av(i), f):
                    kn = i < len(args) and av(i)[0] == "c"
                    b = [a for a, t in st.facts.items() if self.fld(a, f) and a[0] == "nz" and kn and t == bool(av(i)[1])]
                    if not b: self.bad.append((n, st, f, "the %s set up for the generator is not what the search is given" % f))
            return [(st, ("void",))]
        if nm == "addHeuristic":
            self.n += 1; st = st.copy(); st.ts["added"] = st.ts.get("added", 0) + 1
            if not self.fld(av(0), "heuristic"): self.bad.append((n, st, "heuristic", "the heuristic given to the search is not the one set up"))
            return [(st, ("void",))]
        if nm == "setMustCallAgain" and args and ip.truth(st, av(0)) is True: st = st.copy(); st.ts["again"] = True; return [(st, ("void",))]
        if nm == "assignLpInterface": st = st.copy(); st.ts["lp"] = True; return [(st, ("void",))]
        return None
    def iter_end(self, ip, st, n):
        if st.ts.get("added") != 1: self.bad.append((n, st.copy(), "skipped", "a component that was set up is %s to the search" % ("not passed" if not st.ts.get("added") else "passed twice")))
        al = [t for a, t in st.facts.items() if a[0] == "nz" and self.fld(a, "always")]
        if self.what == "cutGenerators" and not (st.ts.get("again") if True in al else al == [False] and not st.ts.get("again")): self.bad.append((n, st.copy(), "always", "whether the generator is called again does not follow from what was set up"))
        re_ = ip.truth(st, ("call", "q", ("re",), (), ()))
        if self.what == "cutGenerators" and re_ is True and not st.ts.get("lp"): self.bad.append((n, st.copy(), "lp", "a generator that works on the search's solver is not given it"))
        if self.what == "cutGenerators" and st.ts.get("lp") and re_ is not True: self.bad.append((n, st.copy(), "lp", "a generator is given the search's solver although it was not set up for it"))
        for k in ("added", "again", "lp"): st.ts.pop(k, None)
        st.facts = HD({})

def loops(b, pred):
    out = []
    for n in walk(b):
        if n["k"] in ("for", "while", "do", "rangefor") and any(pred(m) for m in walk(n)): out.append(n)
    return out

def passing(P, R):
    found = 0
    for f in P.F.values():
        if f.get("b") is None or f.get("cls") != "Bonmin::Bab": continue
        for what in ("cutGenerators", "heuristics"):
            ls = loops(f["b"], lambda m: m["k"] == "call" and m.get("name") == {"cutGenerators": "addCutGenerator", "heuristics": "addHeuristic"}[what])
            for l in ls:
                inner = [x for x in ls if x is not l and any(y is x for y in walk(l))]
                if inner: continue
                found += 1; R.ob()
                R.need(any(m["k"] == "call" and m.get("name") == what for m in walk(l)), "loop over %s" % what)
                h = HP(P, what); ip = Interp(P, h)
                ip.run({**f, "b": l, "p": f["p"]}, St()); R.ran(ip)
                R.atleast("calls that pass %s on" % what, h.n, 1)
                for n, st, c, m in h.bad: R.v("C14.pass", f, n.get("l"), what + ": " + c, m, st.path())
    R.atleast("loops that pass components to the search", found, 2)
