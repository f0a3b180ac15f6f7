"""C09 results shown always belong to the current problem."""
from .common import *

NDEBUG = False
NLP = "Bonmin::OsiTMINLPInterface"
T2T = "Bonmin::TMINLP2TNLP"
COLF = {"x_l_", "x_u_", "var_types_", "x_init_", "duals_init_"}     # bounds, types, starting data
ROWF = {"g_l_", "g_u_"}
VIEWS = ("rowsense_", "rhs_", "rowrange_")
SOLVES = {"OptimizeTNLP", "ReOptimizeTNLP", "solveFromHotStart"}

class Mut:
    """Which methods of the problem class change columns, starting data or rows."""
    def __init__(self, P):
        self.P = P; self.kind = {}
        fam = {T2T} | set(P.derived(T2T))
        self.fam = fam
        for f in P.F.values():
            if f.get("cls") not in fam or f.get("ctor") or f["name"].startswith("~") or f.get("b") is None: continue
            if f["name"] in CALLBACKS: continue
            m = {x for x in fields(P, f)}
            k = set()
            if m & COLF: k.add("col")
            if m & ROWF: k.add("row")
            if k: self.kind.setdefault(f["name"], set()).update(k)
    def of(self, n):
        if n["k"] != "call" or n.get("cls") not in self.fam or n.get("cm"): return set()
        return self.kind.get(n.get("name"), set())

CALLBACKS = {"get_nlp_info", "get_bounds_info", "get_starting_point", "finalize_solution", "get_warm_start_iterate", "eval_f", "eval_g", "eval_grad_f", "eval_jac_g", "eval_h", "gutsOfCopy", "gutsOfDelete", "operator="}

def fields(P, f, seen=None):
    """Members a method (or a method of this it calls) writes."""
    seen = seen if seen is not None else set()
    if f["key"] in seen: return set()
    seen.add(f["key"])
    out = set()
    def lv(n):
        n = peel(n)
        while n["k"] in ("idx", "un", "mem", "call"):
            if n["k"] == "mem":
                if n.get("b", {}).get("k") == "this": out.add(n["f"]); return
                n = peel(n["b"])
            elif n["k"] == "idx": n = peel(n["b"])
            elif n["k"] == "un": n = peel(n["e"])
            elif n["k"] == "call" and n.get("op") in ("[]", "()", "*", "->") and n.get("obj"): n = peel(n["obj"])
            else: return
    for n in walk(f["b"]):
        if n["k"] == "assign": lv(n["a"])
        elif n["k"] == "call":
            if n.get("op") == "=" and n.get("obj"): lv(n["obj"])
            if n.get("obj") and not n.get("cm") and n.get("name") in ("resize", "push_back", "clear", "assign", "swap", "reserve", "insert", "erase", "append", "operator="): lv(n["obj"])
            if n.get("name") in ("CoinCopyN", "CoinDisjointCopyN", "CoinFillN", "CoinZeroN", "IpBlasDcopy", "memcpy") and n["a"]:
                for a in n["a"]:
                    if n["name"] == "IpBlasDcopy" and a is not n["a"][3]: continue
                    if n["name"] in ("CoinCopyN", "CoinDisjointCopyN") and a is not n["a"][2]: continue
                    lv(a)
            g = P.target(n)
            if g is not None and g.get("b") is not None and (n.get("obj") is None or peel(n["obj"])["k"] == "this") and g.get("cls") == f.get("cls"): out |= fields(P, g, seen)
    return out

class H(EvHooks):
    rich = True
    def __init__(self, P, M):
        EvHooks.__init__(self, P, relevant=lambda n: self.rel(n), max_inline=4, cap=300, size=1500)
        self.M = M; self.bad = []; self.nm = 0
        self.keep = about_fields("hasBeenOptimized_", *VIEWS)
    def rel(self, n):
        if n["k"] == "call": return bool(self.M.of(n)) or n.get("name") in SOLVES or n.get("name") == "Set_x_sol"
        if n["k"] == "assign":
            a = peel(n["a"])
            return a["k"] == "mem" and a["f"] in VIEWS + ("hasBeenOptimized_",)
        return False
    def contains(self, ip, f, seen=None):
        if f["key"] in self._cache: return self._cache[f["key"]]
        if f.get("cls") not in (NLP, None): self._cache[f["key"]] = False; return False
        return EvHooks.contains(self, ip, f, seen)
    def want_inline(self, ip, fn, call):
        if fn.get("cls") in self.M.fam: return ip.trivial(fn) and fn["name"] not in self.M.kind
        if self.solver(fn): return False
        return EvHooks.want_inline(self, ip, fn, call)
    def solver(self, fn):
        return fn.get("cls") == NLP and any(n.get("name") in SOLVES or n.get("name") == "Set_x_sol" for n in self.P.calls(fn))
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        g = self.P.target(n)
        if n.get("name") in SOLVES and n.get("cls") not in (NLP, "OsiSolverInterface") or g is not None and self.solver(g):
            st = st.copy(); st.ts["solved"] = True; st.ts.pop("col", None)
            if g is not None and g.get("cls") == NLP: ip.write(st, ("f", ("this",), "hasBeenOptimized_"), ("call", n.get("fn"), ip.site(n)), n)
            return [(st, ("call", n.get("fn"), ip.site(n), (), ()))]
        if n.get("name") == "Set_x_sol" and n.get("cls") in self.M.fam:
            st = st.copy(); st.ts["solved"] = True
            return [(st, ("void",))]
        ks = self.M.of(n)
        if not ks: return None
        st = st.copy(); self.nm += 1
        z = len(args) > 1 and ip.truth(st, ip.val_of(st, args[0])) is False
        if "col" in ks and "row" not in ks: st.ts["col"] = (n.get("name"), n.get("l")); st.ts.pop("solved", None)
        if "row" in ks and not z: st.ts["row"] = (n.get("name"), n.get("l"))
        st.note(n.get("l"), "%s changes the problem" % n.get("name"))
        return [(st, ("call", n.get("fn"), ip.site(n), (), ()))]
    def assign(self, ip, st, n, loc, val):
        if loc[0] == "f" and loc[1] == ("this",) and loc[2] == "hasBeenOptimized_":
            if val == ZERO: st.ts.pop("col", None); st.ts.pop("solved", None); st.ts["cleared"] = n.get("l")
            elif val == ONE:
                if not st.ts.get("solved"): self.bad.append(("C09.true", n, "results are declared available although no solve preceded on this path", st))
                st.ts.pop("col", None)

def run(P, R):
    R.rule("C09.dirty", "every method of the solver interface that changes bounds, types, starting point or multipliers leaves the problem marked as not optimised on every path, unless it solves it afterwards")
    R.rule("C09.rows", "when rows are added or removed every cached row view is dropped on every path")
    R.rule("C09.true", "results are declared available only after a solve (or an installed solution) on the same path")
    R.rule("C09.serve", "solution and multipliers are served from the last solve exactly if results are declared available, from the starting data otherwise")
    R.rule("C09.views", "the row views are built from the current row bounds, all together")
    R.rule("C09.keep", "a method that changes nothing of the problem does not discard results")
    M = Mut(P)
    R.need({"SetVariableLowerBound", "SetVariableUpperBound", "SetVariableType", "setxInit"} <= set(M.kind) or len(M.kind) >= 6, "mutators of the problem class")
    R.count("methods that change the problem", len(M.kind))
    nm = 0; seen = []
    for f in sorted(P.F.values(), key=lambda f: (f["file"], f["l"])):
        if f.get("b") is None or f.get("cls") != NLP or f["name"].startswith("~"): continue
        h = H(P, M)
        if not h.contains(None, f) and not any(n["k"] == "assign" and peel(n["a"])["k"] == "mem" and peel(n["a"])["f"] == "hasBeenOptimized_" for n in walk(f["b"])): continue
        if f.get("ctor") or f["name"] == "operator=": continue
        seen.append(f["name"])
        ip = Interp(P, h)
        res = ip.run(f, St()); R.ran(ip); R.ob()
        nm += h.nm
        for rule, n, msg, st in h.bad:
            R.v(rule, f, n.get("l"), txt(n)[:60], msg, st.path())
        for kind, st, v in res:
            if kind != "ret": continue
            c = st.ts.get("col")
            if c and f["name"] not in SETUP: R.v("C09.dirty", f, c[1], c[0], "%s changes the problem, but on this path the earlier results stay marked as current" % c[0], st.path())
            r = st.ts.get("row")
            if r:
                for w in VIEWS:
                    if ip.truth(st, ip.read(st, ("f", ("this",), w))) is not False: R.v("C09.rows", f, r[1], "%s/%s" % (r[0], w), "%s changes the rows, but the cached view %s of the earlier rows survives" % (r[0], w), st.path())
            if st.ts.get("cleared") and not h.nm and f["name"] not in DISCARD: R.v("C09.keep", f, st.ts["cleared"], f["name"], "results are discarded although nothing of the problem changed", st.path())
    R.atleast("changes to the problem seen", nm, 10)
    R.count("methods analysed", len(seen))
    serve(P, R); views(P, R)

SETUP = {"initialize", "setModel", "allocateTMINLP"}   # build a new problem
DISCARD = {"setWarmStart", "internal_setWarmStart"}

def serve(P, R):
    want = {"getColSolution": ("x_sol", "x_init"), "getRowPrice": ("duals_sol", "duals_init")}
    k = 0
    for f in P.F.values():
        if f.get("cls") != NLP or f["name"] not in want or f.get("b") is None: continue
        for opt in (1, 0):
            good, bad = want[f["name"]][1 - opt], want[f["name"]][opt]
            for kind, st, v in const_returns(P, R, f, fields={"hasBeenOptimized_": opt}):
                R.ob(); k += 1
                if mentions_name(v, bad) or not mentions_name(v, good): R.v("C09.serve", f, f["l"], "%s/%d" % (f["name"], opt), "%s does not serve %s when results are %savailable" % (f["name"], good, "" if opt else "not "), st.path())
    R.atleast("cases of serving results", k, 4)

def mentions_name(v, nm):
    return mentions(v, lambda x: x[0] == "f" and len(x) == 3 and x[2] == nm + "_" or x[0] in ("pure", "call") and isinstance(x[1], str) and x[1].split("::")[-1] == nm)

def views(P, R):
    k = 0
    for f in P.F.values():
        if f.get("cls") != NLP or f.get("b") is None or f.get("ctor") or f["name"].startswith("~") or f["name"] == "operator=": continue
        # builders: methods that allocate one of the views
        al = [n for n in walk(f["b"]) if n["k"] == "assign" and peel(n["a"])["k"] == "mem" and peel(n["a"])["f"] in VIEWS and peel(n["b"])["k"] == "new"]
        if not al: continue
        k += 1; R.ob()
        got = {peel(n["a"])["f"] for n in al}
        if got != set(VIEWS): R.v("C09.views", f, f["l"], f["name"], "only %s of the row views are rebuilt" % sorted(got))
        conv = [n for n in P.calls(f) if n.get("name") == "convertBoundToSense"]
        if conv:
            a = [txt(x) for x in conv[0]["a"]]
        class VH(EvHooks):
            rich = True
            def call(self, ip, st, n, obj, args):
                if n["k"] == "call" and n.get("name") == "convertBoundToSense":
                    vs = [ip.val_of(st, x) for x in args[:2]]
                    for v, good, badn in ((vs[0], "g_l", "g_u"), (vs[1], "g_u", "g_l")):
                        R.ob()
                        if mentions_name(v, badn) or not mentions_name(v, good): R.v("C09.views", f, n.get("l"), "convertBoundToSense", "the row views are not built from the current lower and upper row bounds", st.path())
                    outs = []
                    for x in args[2:]:
                        l = ip.deref(st, x[1]) if x[0] == "lref" else x
                        outs.append(l)
                    for l, w in zip(outs, VIEWS):
                        if l[0] == "e" and not mentions(l, lambda y: y[0] == "f" and len(y) == 3 and y[2] == w or y[0] == "new"): R.v("C09.views", f, n.get("l"), "convertBoundToSense/" + w, "the value for %s is stored in another view" % w, st.path())
                return None
        h = VH(P, relevant=lambda n: n["k"] == "call" and n.get("name") in ("convertBoundToSense", "getRowLower", "getRowUpper", "g_l", "g_u"), cap=60)
        ip = Interp(P, h); ip.run(f, St()); R.ran(ip)
    R.atleast("builders of row views", k, 1)
    for nm, w in (("getRowSense", "rowsense_"), ("getRightHandSide", "rhs_"), ("getRowRange", "rowrange_")):
        for f in P.F.values():
            if f.get("cls") != NLP or f["name"] != nm or f.get("b") is None: continue
            R.ob()
            for kind, st, v in const_returns(P, R, f):
                if kind == "ret" and not (mentions(v, lambda y: y[0] == "f" and len(y) == 3 and y[2] == w) or v[0] in ("new", "c", "call", "unk", "out")): R.v("C09.views", f, f["l"], nm, "%s returns something else than %s" % (nm, w), st.path())
