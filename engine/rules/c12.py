"""C12 heuristics report only improving points that were verified."""
from .common import *

NDEBUG = True
COPY = {"memcpy": (0, 1, 2), "CoinCopyN": (2, 0, 1), "CoinDisjointCopyN": (2, 0, 1), "copy": (2, 0, 1), "CoinMemcpyN": (2, 0, 1), "copy_n": (2, 0, 1)}
SOLVE = {"initialSolve", "resolve", "branchAndBound"}
FPSOLVE = {"solveFeasibilityProblem", "getFeasibilityOuterApproximation"}
UP, LO = {"SetVariableUpperBound", "setColUpper"}, {"SetVariableLowerBound", "setColLower"}
NLP = "Bonmin::OsiTMINLPInterface"

def base(v):
    """Array a pointer value points into."""
    while True:
        if v[0] == "op" and len(v) == 4 and v[1] in ("+", "-"): v = v[2]
        elif v[0] == "addr": v = v[1]
        elif v[0] == "e": v = v[1]
        elif v[0] == "copy": v = v[1]
        elif v[0] in ("pure", "call") and isinstance(v[1], str) and v[1].split("::")[-1] in ("begin", "end", "operator()", "data") and len(v) > 2 and v[2]:
            o = v[2][0] if v[0] == "pure" else (v[3][0] if len(v) > 3 and v[3] else None)
            if o is None: return v
            v = o
        elif v[0] == "obj": v = v[1]
        else: return strip(v)

def strip(v):
    """Forget epochs: the identity of an array, not of its contents."""
    if v[0] == "i": return ("i", v[1])
    if v[0] == "pure": return ("pure", v[1], v[2][:1])
    return v

def has(v, *names):
    return mentions(v, lambda x: x[0] == "f" and len(x) == 3 and x[2] in [n + "_" for n in names] or x[0] in ("pure", "call", "out") and isinstance(x[1], str) and x[1].split("::")[-1] in names)

class H(EvHooks):
    rich = scoped = True
    def __init__(self, P, f):
        EvHooks.__init__(self, P, relevant=self.rel, max_inline=4, cap=400, size=1500)
        self.keep = about_fields("evalf", "evalg", "status", f["p"][0]["name"])
        self.arrays = set()
        for g in [f] + [g for g in P.F.values() if g.get("cls") and self.heur(g["cls"]) or not g.get("cls") and "/Heuristics/" in g["file"]]:
            for c in P.calls(g):
                if c.get("name") in COPY or c.get("name") in ("eval_f", "eval_g"):
                    for x in walk(c):
                        if x["k"] == "var" and "double" in x.get("t", "") and ("*" in x["t"] or "vector" in x["t"]): self.arrays.add((x["id"], x["name"]))
        self.cond = {}; self.by_loop = {}; self.f = f; self.vp, self.xp = f["p"][0]["name"], f["p"][1]["name"]
    def rel(self, n):
        if n["k"] == "call":
            nm = n.get("name")
            if nm in COPY: return "double" in (n["a"][-1].get("t", "") + n["a"][0].get("t", "")) or nm == "memcpy" or nm == "copy"
            if nm == "push_back": return True
            return nm in SOLVE | FPSOLVE | UP | LO | {"eval_f", "eval_g", "optimization_status", "get_nlp_info", "bestSolution", "operator()"} and not (nm == "operator()" and "Bab" not in n.get("fn", ""))
        if n["k"] == "assign":
            a = peel(n["a"])
            if a["k"] == "idx": b = peel(a["b"])
            elif a["k"] == "call" and a.get("op") == "[]" and a.get("obj"): b = peel(a["obj"])
            else: return False
            return b["k"] == "var" and ((b["id"], b["name"]) in self.arrays or b["w"] == "param" and "double" in b.get("t", ""))
        return n["k"] == "return"
    def contains(self, ip, f, seen=None):
        """helpers of the heuristics, not the solvers they use"""
        if f["key"] in self._cache: return self._cache[f["key"]]
        if f.get("cls") and not self.heur(f["cls"]): self._cache[f["key"]] = False; return False
        self._cache[f["key"]] = False
        r = any(n["k"] == "call" and self.rel(n) for n in walk(f.get("b")))
        if not r: r = any(g is not None and g["key"] != f["key"] and self.contains(ip, g) for g in (self.P.target(c) for c in self.P.calls(f)))
        self._cache[f["key"]] = r
        return r
    def heur(self, c): return c == "CbcHeuristic" or "CbcHeuristic" in self.P.bases(c)
    def keepkey(self, st):
        return frozenset((k, v) for k, v in st.env.items() if k[0] == "v" and v[0] == "c" and v[1] in (0, 1))
    # -- arrays ---------------------------------------------------------
    def tag(self, st, v):
        b = base(v)
        t = st.ts.get(("pt", b))
        if t: return t
        if has(b, "x_sol") or has(v, "x_sol"): return ("xsol", st.ts.get("solve", ("given",)))
        if mentions(v, lambda x: x[0] == "f" and len(x) == 3 and x[2] == "bestSolution_" and mentions(x[1], lambda y: y[0] == "v")): return ("bab", b)
        return ("other", b)
    def modified(self, st, b, tag):
        for k in [k for k in st.ts if isinstance(k, tuple) and k[0] == "chk" and k[2] == b]: del st.ts[k]
        st.ts[("pt", b)] = tag
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        nm = n.get("name")
        if nm == "problem" and n.get("cls") == NLP: return [(st, ("tmp", "problem"))]
        if nm == "clone": return [(st, ("new", ("clone",), "nlp"))]
        if nm in COPY and len(args) >= 3:
            d, s, k = COPY[nm]
            dv, sv, kv = (ip.val_of(st, args[i]) for i in (d, s, k))
            st = st.copy()
            self.copied(ip, st, n, base(dv), sv, kv, nm)
            return [(st, dv)]
        if nm in SOLVE | FPSOLVE:
            st = st.copy(); o = st.ts.get("solve"); g = 1 - o[2] if o and o[:2] == (nm, n.get("l")) else 0
            k = (nm, n.get("l"), g)
            st.ts["solve"] = k
            st.ts[("fixed", k)] = nm in SOLVE and st.ts.get("fix", False)
            live = {t[1] for q, t in st.ts.items() if isinstance(q, tuple) and q[0] == "pt" and t[0] == "xsol"} | {k}
            for q in [q for q in st.ts if isinstance(q, tuple) and q[0] == "fixed" and q[1] not in live]: del st.ts[q]
            ip.clobber_args(st, n, args)
            for q in [q for q in st.facts if mentions(q, lambda x: x[0] == "call" and x[1] == "status" and x[2] == k)]: del st.facts[q]
            return [(st, ("call", n.get("fn"), ip.site(n), (), ()))]
        if nm == "optimization_status": return [(st, ("call", "status", st.ts.get("solve", ("given",)), (), ()))]
        if nm == "eval_f" and len(args) >= 4:
            st = st.copy(); x = ip.val_of(st, args[1]); k = ip.site(n)
            for q in [q for q in st.facts if mentions(q, lambda y: y[0] in ("call", "out") and y[1] == "evalf" and y[2] == k)]: del st.facts[q]
            l = args[3]
            if l[0] == "lref": ip.write(st, ip.deref(st, l[1]), ("out", "evalf", k, base(x), self.tag(st, x)), n)
            return [(st, ("call", "evalf", k, base(x), self.tag(st, x)))]
        if nm == "eval_g" and len(args) >= 5:
            st = st.copy(); x = ip.val_of(st, args[1]); g = base(ip.val_of(st, args[4])); k = ip.site(n)
            self.modified(st, g, ("gof", base(x), self.tag(st, x), k))
            return [(st, ("call", "evalg", k, base(x), self.tag(st, x)))]
        if nm in UP or nm in LO:
            st = st.copy(); kind = "up" if nm in UP else "lo"
            i, v = ip.val_of(st, args[0]), ip.val_of(st, args[1])
            st.ts["fix"] = False
            self.act(st, (kind, i, v))
            return [(st, ("void",))]
        if nm == "push_back" and obj is not None:
            st = st.copy()
            v = args[0]; v = ip.val_of(st, v)
            self.act(st, ("push", base(obj), v))
            st.ts.pop(("full", base(obj)), None)
            return None if not args else [(st, ("void",))]
        return None
    def copied(self, ip, st, n, dst, sv, kv, nm):
        self.modified(st, dst, self.tag(st, sv) if self.whole(kv, nm) else ("part", n.get("l")))
        if dst == ("p", self.xp) or mentions(dst, lambda x: x == ("p", self.xp)):
            st.ts["point"] = (base(sv), self.tag(st, sv), n.get("l"), self.whole(kv, nm))
            st.note(n.get("l"), "the point is stored")
    def whole(self, kv, nm):
        if nm == "copy": return True
        return mentions(kv, lambda x: x[0] == "out" and isinstance(x[1], str) and x[1].endswith("get_nlp_info") and x[2] == 0 or x[0] in ("pure", "call") and isinstance(x[1], str) and x[1].split("::")[-1] in ("getNumCols", "num_variables", "size") or x[0] == "f" and len(x) == 3 and x[2] in ("n_",)) or kv[0] == "sizeof"
    def assign(self, ip, st, n, loc, val):
        if loc[0] == "e":
            b = base(loc[1])
            if b == ("p", self.xp):
                # copying element by element inside a loop over the columns
                if self.loopcopy(st, b, loc[2], val): return
                st.ts["point"] = (None, ("element", n.get("l")), n.get("l"), True); return
            if self.loopcopy(st, b, loc[2], val): return
            if ("pt", b) in st.ts: self.modified(st, b, ("elt", n.get("l")))
    def loopcopy(self, st, b, i, val):
        """dst[i] = src[i] for all columns: a copy once the loop is through"""
        m = elem(val); L = st.ts.get("loops", ())
        if m is None or m[1] != i or not L or st.ts.get(("dom", L[-1][0]), ("",))[0] != "col" or st.ts[("dom", L[-1][0])][1] != i: return False
        self.act(st, ("cp", b, i, m[0]))
        return True
    # -- loops ----------------------------------------------------------
    def act(self, st, a):
        L = st.ts.get("loops", ())
        if L and ("dom", L[-1][0]) in st.ts: st.ts[("acts", L[-1][0])] = st.ts.get(("acts", L[-1][0]), frozenset()) | {a}
    def loop(self, ip, st, n):
        st.ts["loops"] = tuple(x for x in st.ts.get("loops", ()) if x[0] != id(n)) + ((id(n), ip.site(n)),)
        st.ts.pop(("acts", id(n)), None); st.ts.pop(("in", id(n)), None)
        st.ts[("must", id(n))] = "all"
        for loc, v in st.env.items():
            if loc[0] == "v" and v[0] == "lv" and v[1] == ip.site(n):
                w = ip.pre_loop.env.get(loc)
                bl = boolish(n, loc)
                if w is not None and w[0] == "lv" and len(bl) == 1: st.ts[("pre", v)] = (w, min(bl))
                else: st.ts.pop(("pre", v), None)
                if bl: st.ts[("head", id(n), loc)] = True
        c = n.get("c")
        if c is not None:
            for m in walk(c): self.cond.setdefault(id(m), (id(n), n))
    def domain(self, ip, st, atom, n):
        """what the loop runs over, from its condition i < bound"""
        if atom[0] != "lt": return None
        i, k = atom[1], atom[2]
        if mentions(k, lambda x: x[0] == "out" and isinstance(x[1], str) and x[1].endswith("get_nlp_info") and x[2] == 0) or has(k, "getNumCols", "num_variables"): return ("col", i)
        if mentions(k, lambda x: x[0] == "out" and isinstance(x[1], str) and x[1].endswith("get_nlp_info") and x[2] == 1) or has(k, "getNumRows", "num_constraints"): return ("row", i)
        o = []
        mentions(k, lambda x: (o.append(x), False)[1] if x[0] in ("pure", "call") and isinstance(x[1], str) and x[1].split("::")[-1] == "size" else False)
        for x in o:
            ob = base(x[2][0] if x[0] == "pure" else x[3][0])
            if st.ts.get(("full", ob)): return ("intlist", i, ob)
        return None
    def branch(self, ip, st, n, truth):
        hit = self.cond.get(id(n))
        if hit is not None and st.ts.get("loops") and st.ts["loops"][-1][0] == hit[0]:
            st.ts[("in", hit[0])] = truth
            if truth:
                st.ts[("acts", hit[0])] = frozenset(); st.ts.pop("cont", None)
                a, _ = self.atom(ip, truth)
                d = self.domain(ip, st, a, hit[1]) if a else None
                if d: st.ts[("dom", hit[0])] = d; st.ts["loop"] = d[0]
            return
        v, pol = self.atom(ip, truth)
        if v is None: return
        # type of the variable
        if mentions(v, lambda x: x[0] in ("pure", "call") and isinstance(x[1], str) and x[1].split("::")[-1] in ("var_types", "isInteger", "isContinuous") or x[0] == "f" and len(x) == 3 and x[2] == "var_types_"):
            if v[0] == "eq" and pol and (v[1] == ZERO or v[2] == ZERO) or v[0] == "nz" and not pol: st.ts["cont"] = True
        if v[0] == "lt":
            lo, hi = (v[1], v[2]) if pol else (v[2], v[1])          # lo <(=) hi on this path
            if frac(lo):
                for b, i in elems(lo): self.act(st, ("int", b, i))
            for b, i in elems(lo):
                if has(hi, "x_u") and not frac(lo): self.act(st, ("xu", b, i))
                if has(hi, "g_u"): self.act(st, ("gu", b, i))
            for b, i in elems(hi):
                if has(lo, "x_l"): self.act(st, ("xl", b, i))
                if has(lo, "g_l"): self.act(st, ("gl", b, i))
    def atom(self, ip, truth):
        v = ip.cv
        if v[0] == "b": return v[1], truth == v[2]
        if v[0] == "c": return None, truth
        return ("nz", v), truth
    def iter_end(self, ip, st, n):
        k = id(n); d = st.ts.get(("dom", k)); acts = st.ts.get(("acts", k), frozenset())
        if d is None: st.ts[("must", k)] = frozenset(); return
        got = set()
        def idx(i): return i == d[1] or d[0] == "intlist" and mentions(i, lambda x: x == d[1]) and mentions(i, lambda x: x == d[2])
        lo = {(a[1], a[2]) for a in acts if a[0] == "lo"}; up = {(a[1], a[2]) for a in acts if a[0] == "up"}
        for i, v in up:
            if any(j == i and same(v, w) for j, w in lo) and idx(i): got.add(("fix",))
        for a in acts:
            if a[0] in ("int", "xl", "xu", "gl", "gu") and idx(a[2]): got.add((a[0], a[1]))
            if a[0] == "cp": got.add(("cp", a[1], a[3]))
            if a[0] == "push" and idx(a[2]): got.add(("push", a[1]))
        m = st.ts.get(("must", k), "all")
        self.by_loop.setdefault(k, set()).update(got)
        got = frozenset(got); cont = bool(st.ts.get("cont")) and d[0] == "col"
        # flags this iteration set to a constant: whoever finds another value later knows it did not happen
        site = ip.site(n); F = set()
        for loc, v in st.env.items():
            if loc[0] != "v": continue
            if v[0] == "c" and v[1] in (0, 1) and st.ts.get(("head", k, loc)): F.add((loc, v[1]))
        F = frozenset(F)
        if F: got, cont = frozenset(), False      # coarser: owed altogether unless the flag tells
        if m == "all": m = (frozenset(),)
        if isinstance(m, frozenset): m = (frozenset([(frozenset(), frozenset(), False)]),)
        T = m[0] | {(got, F, cont)}
        st.ts[("must", k)] = (frozenset(t for t in T if not any(u != t and u[0] <= t[0] and u[1] <= t[1] and u[2] <= t[2] for u in T)),)
        st.ts.pop(("acts", k), None); st.ts.pop("cont", None)
    def loop_exit(self, ip, sts, n):
        k = id(n); out = []
        for s in sts:
            m, d = s.ts.get(("must", k), "all"), s.ts.get(("dom", k))
            broke = s.ts.get(("in", k)) and n.get("c") is not None
            vac = m == "all"
            for q in ("must", "acts", "in", "dom"): s.ts.pop((q, k), None)
            for q in [q for q in s.ts if isinstance(q, tuple) and q[0] == "head" and q[1] == k]: del s.ts[q]
            s.ts["loops"] = tuple(x for x in s.ts.get("loops", ()) if x[0] != k)
            s.ts.pop("loop", None); s.ts.pop("cont", None)
            if not broke:
                done = set(); cnd = {}
                if vac:
                    done = static_acts(self, ip, n)
                elif isinstance(m, tuple):
                    for g in static_acts(self, ip, n):
                        unless = set(); ok = True
                        for got, F, cont in m[0]:
                            if g in got or cont and g[0] in ("fix", "int", "push"): continue
                            if F: unless.add(frozenset((s.env[l], c) for l, c in F if l in s.env))
                            else: ok = False
                        if ok: done.add(g); cnd[g] = frozenset(unless)
                for g in sorted(done, key=str):
                    u = cnd.get(g, frozenset())
                    if g[0] == "fix": s.ts["fix"] = True if not u else u
                    elif g[0] == "cp":
                        if u: continue
                        if g[1] == ("p", self.xp): s.ts["point"] = (g[2], self.tag(s, g[2]), n.get("l"), True); s.note(n.get("l"), "the point is stored")
                        else: self.modified(s, g[1], self.tag(s, g[2]))
                    elif g[0] == "push":
                        if not u: s.ts[("full", g[1])] = True
                    elif ("pt", g[1]) in s.ts: s.ts[("chk", g[0], g[1])] = u
            out.append(s)
        return out

def static_acts(h, ip, n):
    """What the iterations of this loop were seen to do (used for zero iterations)."""
    return h.by_loop.get(id(n), set())

def boolish(n, loc):
    """assigned only constants in this loop"""
    vs = [m["b"] for m in walk(n) if m["k"] == "assign" and m.get("op", "=") == "=" and peel(m["a"])["k"] == "var" and peel(m["a"]).get("id") == loc[2]]
    oth = [m for m in walk(n) if m["k"] == "un" and m["op"] in ("++", "--") and peel(m["e"])["k"] == "var" and peel(m["e"]).get("id") == loc[2] or m["k"] == "assign" and m.get("op", "=") != "=" and peel(m["a"])["k"] == "var" and peel(m["a"]).get("id") == loc[2]]
    if not vs or oth or not all(peel(v)["k"] in ("bool", "int", "enum") for v in vs): return set()
    return {int(peel(v)["v"]) for v in vs}

def differs(ip, st, val, c):
    """val is known not to be c on this path"""
    if ip.known(st, ("eq", val, C(c))) is False or val[0] == "c" and val[1] != c: return True
    if c == 0 and ip.truth(st, val) is True: return True
    # a flag that a later loop only ever moves to c and that still differs from c
    for k, w in st.ts.items():
        if isinstance(k, tuple) and k[0] == "pre" and w == (val, c) and differs(ip, st, k[1], c): return True
    return False

def holds(ip, st, u):
    """none of the excused iterations happened"""
    return u is True or u is not False and u is not None and all(any(differs(ip, st, v, c) for v, c in F) for F in u)

def same(a, b):
    """floor(v) and ceil(v) of an already integral value coincide"""
    def core(x):
        while x[0] in ("pure", "call") and isinstance(x[1], str) and x[1].split("::")[-1] in ("floor", "ceil"):
            y = x[3][0] if len(x) > 3 and x[3] else None
            if y is None: break
            if y[0] in ("pure", "call") and isinstance(y[1], str) and y[1].split("::")[-1] in ("floor", "ceil"): x = y
            else: break
        return x
    return core(a) == core(b)

def elem(v):
    if v[0] == "copy": return elem(v[1])
    if v[0] == "i" and v[1][0] == "e": return (base(v[1][1]), v[1][2])
    return None
def elems(v):
    out = []
    def f(x):
        if x[0] == "e" and len(x) == 3: out.append((base(x[1]), x[2]))
        return False
    mentions(v, f)
    return out
def frac(v):
    return mentions(v, lambda x: x[0] in ("pure", "call") and isinstance(x[1], str) and x[1].split("::")[-1] in ("floor", "ceil", "round")) and mentions(v, lambda x: x[0] in ("pure", "call") and isinstance(x[1], str) and x[1].split("::")[-1] in ("fabs", "abs"))

def run(P, R):
    R.rule("C12.pair", "a path on which a heuristic announces success stores both the point and its value, and the value is the objective the model returned, successfully, at the very point stored")
    R.rule("C12.better", "success is announced only where the value is known to be smaller than the incumbent value passed in")
    R.rule("C12.verified", "the point announced comes from an NLP solve known to have succeeded or passed the bound and row checks, and its integrality comes from fixing all integer variables before that solve or from a check of every integer variable after the last change; points of a sub-solve are its best solution")
    R.rule("C12.none", "a path that announces no success writes neither the point nor the value")
    fs = [f for f in P.F.values() if f["name"] == "solution" and f.get("cls") and "CbcHeuristic" in P.bases(f["cls"]) and f.get("b") is not None and len(f["p"]) == 2]
    R.atleast("heuristics", len(fs), 8)
    suc = 0
    for f in sorted(fs, key=lambda f: f["fn"]):
        h = H(P, f); ip = Interp(P, h)
        st = St()
        res = ip.run(f, st); R.ran(ip)
        vp, xp = h.vp, h.xp
        vloc = ("v", "m", f["p"][0]["id"], vp)
        for kind, st, v in res:
            if kind != "ret": continue
            R.ob()
            val = st.env.get(vloc); wrote = val is not None and val not in (("p", vp), ("i", ("p", vp))) and not (val[0] in ("ref", "i") and mentions(val, lambda x: x == ("p", vp)))
            pt = st.ts.get("point")
            if v[0] == "call" and v[1].endswith("::solution"): continue       # delegated to another store of solutions
            t = None if v[0] != "c" else v[1] > 0
            if t is None: t = ip.truth(st, v)
            if t is not True:
                if pt: R.v("C12.none", f, pt[2], "point", "%s stores a point on a path that announces no success" % f["cls"], st.path())
                if wrote and not (v[0] == "c" and v[1] < 0): R.v("C12.none", f, f["l"], "value", "%s changes the incumbent value on a path that announces no success" % f["cls"], st.path())
                if t is False or v[0] == "c": continue
            suc += 1
            def bad(rule, c, msg): R.v(rule, f, pt[2] if pt else f["l"], c, "%s announces success, but %s" % (f["cls"].split("::")[-1], msg), st.path())
            if not pt: bad("C12.pair", "point", "stores no point"); continue
            if not pt[3]: bad("C12.pair", "copy", "does not store all coordinates of the point")
            if not wrote or val[0] != "out" or val[1] != "evalf": bad("C12.pair", "value", "the value reported is not an objective value the model returned (%s)" % (short(val) if wrote else "it is not set")); continue
            if (val[3], val[4]) != pt[:2]: bad("C12.pair", "other", "the value was computed at another point than the one stored"); continue
            ev = ("call", "evalf", val[2], val[3], val[4])
            if ip.truth(st, ev) is not True: bad("C12.pair", "failed", "the evaluation of the objective may have failed")
            if not any(b and a[0] == "lt" and a[1] == val and a[2] in (('i', vloc), ('p', vp), ('i', ('p', vp))) for a, b in st.facts.items()): bad("C12.better", "value", "its value is not known to be better than the incumbent")
            b, tag = pt[0], pt[1]
            if tag[0] == "bab": continue
            solved = tag[0] == "xsol" and ip.known(st, ("eq", ("call", "status", tag[1], (), ()), ZERO)) is True
            chk = {k[1] for k, u in st.ts.items() if isinstance(k, tuple) and k[0] == "chk" and k[2] == b and holds(ip, st, u)}
            rows = any(isinstance(k, tuple) and k[0] == "pt" and t2[0] == "gof" and t2[1:3] == (b, tag) and holds(ip, st, st.ts.get(("chk", "gl", k[1]))) and holds(ip, st, st.ts.get(("chk", "gu", k[1]))) and ip.truth(st, ("call", "evalg", t2[3], b, tag)) is True for k, t2 in st.ts.items())
            if not solved and not ({"xl", "xu"} <= chk and rows): bad("C12.verified", "feasible", "its point neither comes from a solve known to have succeeded nor passed a check of the bounds and rows")
            if not ("int" in chk or tag[0] == "xsol" and holds(ip, st, st.ts.get(("fixed", tag[1])))): bad("C12.verified", "integer", "the integrality of its point was not established: the integer variables were not all fixed before the solve, nor all checked")
    R.atleast("paths announcing success", suc, 5)

def short(v): return str(v)[:60]
