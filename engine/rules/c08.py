"""C08 temporary changes to a solver are undone on every way out."""
from .common import *
from .c17 import clean

NDEBUG = True
OSI = "Bonmin::OsiTMINLPInterface"
SETS = {"setColLower": "L", "setColUpper": "U", "setColBounds": "LU", "setColSetBounds": "LU",
        "SetVariableLowerBound": "L", "SetVariableUpperBound": "U", "SetVariableBounds": "LU", "SetVariablesBounds": "LU", "SetVariablesLowerBounds": "L", "SetVariablesUpperBounds": "U",
        "setObjCoeff": "O", "setObjective": "O", "setObjSense": "O", "addRow": "R", "addRows": "R", "applyRowCuts": "R", "applyRowCut": "R", "applyCuts": "R", "addCuts": "R", "deleteRows": "R", "addCol": "R", "setRowLower": "R", "setRowUpper": "R", "setRowBounds": "R",
        "switchToFeasibilityProblem": "M", "setInteger": "T", "setContinuous": "T", "SetVariableType": "T"}
WHAT = {"L": "lower bounds", "U": "upper bounds", "O": "objective", "R": "constraints", "M": "problem", "T": "types"}
GET = {"getColLower": "L", "getColUpper": "U", "x_l": "L", "x_u": "U", "orig_x_l": None}
SOLVERS = ("OsiSolverInterface", "Bonmin::TMINLP2TNLP")

def solver_call(P, n):
    c = n.get("cls") or ""
    return any(s == c or s in P.bases(c) for s in SOLVERS)

class HS(EvHooks):
    """Which solver has been changed and not been put back (per path)."""
    rich = scoped = True
    def __init__(self, P, f):
        EvHooks.__init__(self, P, relevant=self.rel, max_inline=5, cap=600)
        self.f = f; self.saves = self.sets = self.puts = 0; self.bad = []
        self.keep = lambda a: mentions(a, lambda x: x[0] == "p") and a[0] == "nz"
    def rel(self, n):
        if n["k"] in ("call", "ctor"): return n.get("name") in SETS and solver_call(self.P, n) or n.get("name") in ("CoinCopyN", "CoinCopyOfArray", "CoinDisjointCopyN", "performOa", "CoinMemcpyN", "copy", "memcpy", "assign", "copy_n", "switchToOriginalProblem")
        return False
    def want_inline(self, ip, fn, call):
        if fn.get("cls") and solver_call(self.P, {"cls": fn["cls"]}): return ip.trivial(fn)
        if (fn.get("cls") or "").endswith("::solverManip"): return ip.trivial(fn)
        return EvHooks.want_inline(self, ip, fn, call)
    def contains(self, ip, f, seen=None):
        k = f["key"]
        if k in self._cache: return self._cache[k]
        self._cache[k] = False
        r = any(n["k"] == "call" and (n.get("name") in SETS and solver_call(self.P, n) or n.get("name") in ("performOa", "switchToOriginalProblem")) for n in walk(f.get("b")))
        if not r:
            for c in self.P.calls(f):
                g = self.P.target(c)
                if g is not None and g["key"] != k and not (g.get("cls") and solver_call(self.P, {"cls": g["cls"]})) and self.contains(ip, g): r = True; break
        self._cache[k] = r
        return r
    def kinds(self, v):
        """(solver, L or U) whose own bounds v is taken from."""
        out = set()
        def p(x):
            if x[0] in ("pure", "call") and isinstance(x[1], str):
                k = GET.get(x[1].split("::")[-1])
                o = x[2] if x[0] == "pure" else (x[3] if len(x) > 3 else None)
                if k and o: out.add((clean(o[0]), k))
            return False
        mentions(v, p)
        return out
    def held(self, st, v):
        """(solver, L or U) of the saved copy v points into."""
        out = set()
        sv = {k[1]: w for k, w in st.ts.items() if isinstance(k, tuple) and k[0] == "sv"}
        if not sv: return out
        mentions(clean(v), lambda x: out.add(sv[x]) if x in sv else False)
        return out
    def save(self, st, dst, src):
        ks = self.kinds(src)
        d = clean(dst)
        if len(ks) == 1:
            (o, k), = ks
            if st.ts.get(("d", o, k)): st.ts.pop(("sv", d), None)      # copying already changed bounds saves nothing
            else: st.ts[("sv", d)] = (o, k); self.saves += 1
        else: st.ts.pop(("sv", d), None)
    def call(self, ip, st, n, obj, args):
        nm = n.get("name")
        if n["k"] == "ctor":
            if n.get("cls") in ("std::vector", "Bonmin::vector") and len(args) >= 2 and self.kinds(ip.val_of(st, args[0])):
                st = st.copy(); self.save(st, ("ctor", ip.site(n)), ip.val_of(st, args[0])); return [(st, ("ctor", ip.site(n)))]
            return None
        if nm == "operator()" and (n.get("cls") or "").endswith("vector") and not args:
            return [(st, ("tmp", "data", clean(obj)))]
        if nm in ("data", "begin") and (n.get("cls") or "").endswith("vector"): return [(st, ("tmp", "data", clean(obj)))]
        if nm in ("operator[]", "at") and (n.get("cls") or "").endswith("vector") and args: return None
        if nm in ("CoinCopyN", "CoinDisjointCopyN", "CoinMemcpyN") and len(args) == 3:
            st = st.copy(); self.save(st, ip.val_of(st, args[2]), ip.val_of(st, args[0])); return [(st, ("void",))]
        if nm in ("copy", "copy_n") and len(args) == 3:
            st = st.copy(); self.save(st, ip.val_of(st, args[2]), ip.val_of(st, args[0])); return [(st, UNK)]
        if nm == "memcpy" and len(args) == 3:
            st = st.copy(); self.save(st, ip.val_of(st, args[0]), ip.val_of(st, args[1])); return [(st, UNK)]
        if nm == "assign" and obj is not None and len(args) == 2 and (n.get("cls") or "").endswith("vector"):
            st = st.copy(); self.save(st, ("tmp", "data", clean(obj)), ip.val_of(st, args[0])); return [(st, ("void",))]
        if nm == "CoinCopyOfArray" and args:
            st = st.copy(); v = ("call", "copyof", ip.site(n), (), ()); self.save(st, v, ip.val_of(st, args[0])); return [(st, v)]
        if nm == "performOa":
            st = st.copy()
            for o in self.nlps(): 
                for k in "LU": st.ts[("d", o, k)] = n.get("l")
            st.note(n.get("l"), "the decomposition runs"); self.sets += 1
            return [(st, ("call", "performOa", ip.site(n), (), ()))]
        if nm == "switchToOriginalProblem" and obj is not None:
            st = st.copy(); st.ts.pop(("d", clean(obj), "M"), None); return [(st, ("void",))]
        if nm in SETS and obj is not None and solver_call(self.P, n):
            st = st.copy(); o = clean(obj); ks = SETS[nm]
            vals = [ip.val_of(st, a) for a in args]
            whole = ks in ("L", "U") and len(args) == 1
            if whole:
                h = self.held(st, vals[0])
                if h == {(o, ks)}: st.ts.pop(("d", o, ks), None); self.puts += 1; st.note(n.get("l"), "%s put back" % WHAT[ks])
                else: self.sets += 1; st.ts[("d", o, ks)] = n.get("l"); st.note(n.get("l"), "%s changed" % WHAT[ks])
            elif ks in ("L", "U", "LU") and nm != "setColSetBounds":
                for k, v in zip(ks, vals[1:]):
                    ok = self.held(st, v) == {(o, k)}
                    if ok and ("loop", o, k) in st.ts: st.ts[("it", o, k)] = True
                    elif ok and not st.ts.get(("d", o, k)): pass
                    else:
                        if ("loop", o, k) in st.ts: st.ts[("loop", o, k)] = False
                        self.sets += 1; st.ts[("d", o, k)] = n.get("l"); st.note(n.get("l"), "%s changed" % WHAT[k])
            else:
                self.sets += 1
                for k in ks: st.ts[("d", o, k)] = n.get("l")
                st.note(n.get("l"), "%s changed" % WHAT[ks[0]])
            return [(st, ("void",))]
        if "CoinMessageHandler" in (n.get("cls") or ""): return [(st, obj or UNK)]
        if obj is not None and n.get("cls") and solver_call(self.P, n) and nm in ("getColLower", "getColUpper", "x_l", "x_u"):
            return [(st, ("call", nm, 0, (clean(obj),), ()))]
        return None
    def nlps(self):
        c = self.f.get("cls"); out = []
        for b in [c] + list(self.P.bases(c)):
            for fl in self.P.C.get(b, {}).get("fields", []):
                if "OsiTMINLPInterface" in fl["ct"] and "*" in fl["ct"]: out.append(("i", ("f", ("this",), fl["f"])))
        return out
    def assign(self, ip, st, n, loc, val):
        if loc[0] == "e" and self.kinds(val): self.save(st, loc[1], val)
    def restoring(self, n):
        out = set()
        for m in walk(n):
            if m["k"] == "call" and m.get("name") in ("setColLower", "setColUpper", "setColBounds") and solver_call(self.P, m): out |= set(SETS[m["name"]])
            if m["k"] == "call" and m.get("name") in ("resolve", "initialSolve", "performOa", "solveFromHotStart"): return set()
        return out
    def loop(self, ip, st, n):
        if n["k"] != "for": return
        for k in self.restoring(n):
            for key in [key for key in st.ts if isinstance(key, tuple) and key[0] == "d" and key[2] == k]: st.ts[("loop",) + key[1:]] = True
    def iter_end(self, ip, st, n):
        for k in self.restoring(n):
            for key in [key for key in st.ts if isinstance(key, tuple) and key[0] == "loop" and key[2] == k]:
                done = st.ts.pop(("it",) + key[1:], False)
                # a column that was left alone must be one the change left alone too: not an integer one
                skip = any(b is False and a[0] == "nz" and mentions(a, lambda x: x[0] in ("call", "pure") and isinstance(x[1], str) and x[1].endswith("isInteger")) for a, b in st.facts.items())
                if not done and not skip: st.ts[key] = False
    def loop_exit(self, ip, sts, n):
        for s in sts:
            for k in self.restoring(n):
                for key in [key for key in s.ts if isinstance(key, tuple) and key[0] == "loop" and key[2] == k]:
                    full = any(a[0] == "lt" and b is False and mentions(a[2], lambda x: x[0] in ("pure", "call") and isinstance(x[1], str) and x[1].endswith("::getNumCols")) for a, b in s.facts.items())
                    if s.ts.pop(key) and full:
                        s.ts.pop(("d",) + key[1:], None); self.puts += 1; s.note(n.get("l"), "%s put back" % WHAT[k])
        return sts

def dirt(st): return sorted(((k, v) for k, v in st.ts.items() if isinstance(k, tuple) and k[0] == "d"), key=str)
def foreign(P, c, o):
    """Not a solver this operation made for itself."""
    if mentions(o, lambda x: x == ("c", 0)): return False       # the path on which there is no solver
    own = {fl["f"] for b in [c] + list(P.bases(c)) for fl in P.C.get(b, {}).get("fields", []) if "SubMipSolver" in fl["ct"]}
    if mentions(o, lambda x: x[0] == "f" and len(x) == 3 and x[1] == ("this",) and x[2] in own): return False
    if mentions(o, lambda x: x[0] in ("new", "ctorval") or x[0] == "call" and isinstance(x[1], str) and x[1].split("::")[-1] in ("clone",)): return False
    return o[0] in ("i", "p", "pure", "call", "lref")

def generators(P, R):
    fs = [f for f in P.F.values() if f["name"] == "generateCuts" and f.get("b") is not None and f.get("cls") and any("CglCutGenerator" == b for b in P.bases(f["cls"]))]
    R.need(fs, "generateCuts of the cut generators")
    tot = [0, 0, 0]
    for f in sorted(fs, key=lambda f: f["fn"]):
        h = HS(P, f); ip = Interp(P, h); res = ip.run(f, St()); R.ran(ip)
        tot[0] += h.saves; tot[1] += h.sets; tot[2] += h.puts
        outs = [(s, "return") for k, s, v in res if k == "ret"] + [(s, "throw") for s, t, n in ip.sink[0] if n is not None and n["k"] == "throw"]
        for st, how in outs:
            R.ob()
            for (d, o, k), l in dirt(st):
                if o not in h.nlps() and o[0] != "p": continue       # the working copy of the LP belongs to C08.manip
                R.v("C08.nlp", f, l or f["l"], "%s left (%s)" % (WHAT[k], how), "the %s of the NLP changed for the cuts are not put back before the %s" % (WHAT[k], how), st.path())
    R.atleast("copies of bounds saved", tot[0], 4); R.atleast("changes to the NLP", tot[1], 3); R.atleast("bounds put back", tot[2], 4)

class HP(HS):
    """Rounds of a decomposition that solves the node's NLP again afterwards."""
    def iter_end(self, ip, st, n):
        HS.iter_end(self, ip, st, n)
        if n["k"] in ("while", "do", "for") and any(m["k"] == "call" and m.get("name") == "solveFeasibilityProblem" for m in walk(n)):
            self.ends = getattr(self, "ends", 0) + 1
            for (d, o, k), l in dirt(st):
                if o in self.nlps(): self.bad.append((l, st.copy(), k))

def pump(P, R):
    fs = [f for f in P.F.values() if f["name"] == "performOa" and f.get("b") is not None and any(m["k"] == "call" and m.get("name") == "solveFeasibilityProblem" for m in walk(f["b"]))]
    R.need(fs, "a decomposition that solves feasibility problems (MinlpFeasPump::performOa)")
    for f in fs:
        h = HP(P, f); ip = Interp(P, h); ip.run(f, St()); R.ran(ip)
        R.atleast("rounds of the pump", getattr(h, "ends", 0), 1); R.atleast("bounds put back by the pump", h.puts, 2)
        R.ob(getattr(h, "ends", 1))
        for l, st, k in h.bad: R.v("C08.nlp", f, l, "%s kept for the next round" % WHAT[k], "the next feasibility problem is solved with the %s of the last fixing" % WHAT[k], st.path())

# ---------------------------------------------------------------- solverManip
class HM(EvHooks):
    rich = scoped = True
    slice = False
    def __init__(self, P):
        EvHooks.__init__(self, P, relevant=lambda n: n["k"] == "call" and (n.get("name") in SETS or n.get("name") in ("getWarmStart", "setWarmStart", "getDblParam", "setDblParam", "CoinCopyN")), max_inline=4)
        self.keep = about_fields("initialNumberRows_", "colLower_", "colUpper_", "cutoff_", "warm_")
        self.keepkey = lambda st: True
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        nm = n.get("name")
        if nm in ("getColLower", "getColUpper", "getNumRows", "getNumCols", "getWarmStart"): return [(st, ("call", nm, 0, (), ()))]
        if nm == "getCached":
            st = st.copy()
            for fl, g in (("numrows_", "getNumRows"), ("numcols_", "getNumCols"), ("siColLower_", "getColLower"), ("siColUpper_", "getColUpper")): st.env[("f", ("this",), fl)] = ("call", g, 0, (), ())
            return [(st, ("void",))]
        if nm == "CoinCopyN" and len(args) == 3:
            st = st.copy(); st.ts[("sv", clean(ip.val_of(st, args[2])))] = ip.val_of(st, args[0]), ip.val_of(st, args[1]); return [(st, ("void",))]
        if nm == "CoinCopyOfArray" and len(args) == 2:
            st = st.copy(); v = ("call", "copyof", ip.site(n), (), ()); st.ts[("sv", v)] = ip.val_of(st, args[0]), ip.val_of(st, args[1]); return [(st, v)]
        if nm == "getDblParam" and len(args) == 2:
            st = st.copy(); v = ("call", "param", 0, (ip.val_of(st, args[0]),), ()); st.ts["param"] = v
            a = args[1]; loc = self.loc(ip, st, n["a"][1])
            if loc is not None: st.env[loc] = v; st.ts["cut"] = loc
            return [(st, UNK)]
        if nm in ("setColLower", "setColUpper", "deleteRows", "setWarmStart", "setDblParam"):
            st = st.copy(); st.ts[("did", nm)] = tuple(clean(ip.val_of(st, a)) for a in args)
            if nm == "setWarmStart": return [(st, ONE)]
            return [(st, ("void",))]
        if nm in ("resolve", "messageHandler", "setLogLevel"): return [(st, ("tmp", nm))]
        return None
    def loc(self, ip, st, n):
        n = peel(n)
        if n["k"] == "un" and n["op"] == "&": n = peel(n["e"])
        return ("f", ("this",), n["f"]) if n["k"] == "mem" else None

def manip(P, R):
    c = next((c for c in P.C if c.endswith("::solverManip")), None)
    R.need(c, "solverManip")
    ctors = [f for f in P.F.values() if f.get("cls") == c and f.get("ctor") and f.get("b") is not None and any("bool" in p["ct"] for p in f["p"])]
    rest = [f for f in P.F.values() if f.get("cls") == c and f["name"] == "restore" and f.get("b") is not None]
    R.need(ctors, "the constructor of solverManip that saves"); R.need(rest, "solverManip::restore")
    FL = {"rows": "initialNumberRows_", "basis": "warm_", "bounds": ("colLower_", "colUpper_"), "cutoff": "cutoff_"}
    def fld(x): return ("f", ("this",), x)
    for f in ctors:
        flags = [p for p in f["p"] if "bool" in p["ct"]]
        R.need(len(flags) >= 4, "the flags of solverManip")
        for i, what in enumerate(("rows", "basis", "bounds", "cutoff")):
            h = HM(P); ip = Interp(P, h); st = St()
            for j, p in enumerate(flags): st.env[("v", "m", p["id"], p["name"])] = C(1 if j == i else 0)
            res = [s for k, s, v in ip.run(f, st) if k == "ret"]; R.ran(ip); R.need(res, "solverManip constructor")
            for s in res:
                R.ob()
                def sv(fl, g):
                    e = s.ts.get(("sv", clean(s.env.get(fld(fl), UNK))))
                    return e is not None and e[0][:2] == ("call", g) and e[1][:2] == ("call", "getNumCols")
                ok = {"rows": lambda: s.env.get(fld("initialNumberRows_"), UNK)[:2] == ("call", "getNumRows"),
                      "basis": lambda: s.env.get(fld("warm_"), UNK)[:2] == ("call", "getWarmStart"),
                      "bounds": lambda: sv("colLower_", "getColLower") and sv("colUpper_", "getColUpper"),
                      "cutoff": lambda: s.env.get(fld("cutoff_"), UNK)[:2] == ("call", "param") and s.ts.get("cut") == fld("cutoff_")}[what]()
                if not ok: R.v("C08.manip", f, f["l"], "save " + what, "the %s asked to be saved are not" % what, s.path())
        # the arguments of every use say what its restore() is to put back
    for f in rest:
        h = HM(P); ip = Interp(P, h)
        for what in FL:
            st = St()
            for fl in ("initialNumberRows_", "warm_", "colLower_", "colUpper_"): st.env[fld(fl)] = C(-1) if fl == "initialNumberRows_" else ZERO
            sav = ("call", "saved", 0, (), ())
            h2 = HM(P)
            h2.read = lambda ip, s, loc: C(1.7976931348623157e308) if loc in (("g", "COIN_DBL_MAX"),) else None
            st.env[fld("cutoff_")] = C(1.7976931348623157e308)
            if what == "rows": st.env[fld("initialNumberRows_")] = C(7)
            elif what == "basis": st.env[fld("warm_")] = sav; st.facts[("nz", sav)] = True
            elif what == "bounds":
                for x in ("colLower_", "colUpper_"): st.env[fld(x)] = ("call", x, 0, (), ()); st.facts[("nz", ("call", x, 0, (), ()))] = True
            else: st.env[fld("cutoff_")] = C(5.0)
            ip = Interp(P, h2); res = [s for k, s, v in ip.run(f, st) if k == "ret"]; R.ran(ip); R.need(res, "solverManip::restore")
            for s in res:
                R.ob(); d = {k[1]: v for k, v in s.ts.items() if isinstance(k, tuple) and k[0] == "did"}
                if what == "rows":
                    a = d.get("deleteRows")
                    ok = a is not None and a[0] == ("op", "-", ("call", "getNumRows", 0, (), ()), C(7))
                elif what == "basis": ok = d.get("setWarmStart") == (sav,)
                elif what == "bounds": ok = d.get("setColLower") == (("call", "colLower_", 0, (), ()),) and d.get("setColUpper") == (("call", "colUpper_", 0, (), ()),)
                else: ok = "setDblParam" in d and d["setDblParam"][-1] == C(5.0)
                if not ok: R.v("C08.manip", f, f["l"], "restore " + what, "the saved %s are not put back (%s)" % (what, str(sorted(d.items()))[:120]), s.path())
    # who uses a saving solverManip calls restore() when the solver is to be left alone
    n = 0
    for f in P.F.values():
        if f.get("b") is None: continue
        if not any(m["k"] == "ctor" and m.get("cls") == c and len(m.get("a", [])) >= 5 for m in walk(f["b"])): continue
        h = HR(P, c); ip = Interp(P, h); st = St(); st.env[fld("leaveSiUnchanged_")] = ONE
        res = ip.run(f, st); R.ran(ip); n += 1
        for k, s, v in res:
            if k != "ret": continue
            R.ob()
            if s.ts.get("open"): R.v("C08.manip", f, s.ts["open"], "not restored", "the LP is to be left unchanged but is not restored before the return", s.path())
    R.atleast("users of a saving solverManip", n, 2)

class HR(EvHooks):
    rich = scoped = True
    def __init__(self, P, c):
        EvHooks.__init__(self, P, relevant=lambda n: n["k"] == "ctor" and n.get("cls") == c or n["k"] == "call" and n.get("cls") == c and n.get("name") == "restore", max_inline=3)
        self.c = c; self.keep = about_fields("leaveSiUnchanged_", "lp_")
        def kk(a): return about_fields("leaveSiUnchanged_", "lp_")(a) or a[0] == "nz" and mentions(a, lambda x: x[0] == "new")
        self.keep = kk
    def call(self, ip, st, n, obj, args):
        if n["k"] == "ctor" and n.get("cls") == self.c and len(args) >= 5:
            st = st.copy(); st.ts["open"] = n.get("l"); return [(st, UNK)]
        if n["k"] == "call" and n.get("cls") == self.c and n.get("name") == "restore":
            st = st.copy(); st.ts.pop("open", None); return [(st, ("void",))]
        return None

# ---------------------------------------------------------------- LP strong branching
class HL(EvHooks):
    rich = scoped = True
    slice = False
    def __init__(self, P, mode):
        EvHooks.__init__(self, P, relevant=lambda n: n["k"] == "call" and n.get("name") in ("setColLower", "setColUpper", "push_back", "clone"), max_inline=4, cap=600)
        self.mode = mode; self.bad = []; self.chg = self.rec = 0; self.clones = set()
        self.keep = lambda a: False
    def vec(self, obj): return clean(obj)
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        nm = n.get("name")
        if nm == "clone": return [(st, ("call", "clone", ip.site(n), (), ()))]
        if nm in GET and obj is not None: return [(st, ("call", nm, 0, (clean(obj),), ()))]
        if nm == "push_back" and obj is not None:
            st = st.copy(); st.ts[("pb", self.vec(obj))] = clean(ip.val_of(st, args[0])); self.rec += 1
            st.ts[("has", self.vec(obj))] = self.what(st.ts[("pb", self.vec(obj))], obj) or st.ts.get(("has", self.vec(obj)))
            return [(st, ("void",))]
        if nm == "size" and obj is not None: return [(st, ("call", "size", 0, (self.vec(obj),), ()))]
        if nm in ("operator[]", "at") and obj is not None and args: return [(st, ("call", "elt", 0, (self.vec(obj),), (clean(ip.val_of(st, args[0])),)))]
        if nm in ("setColLower", "setColUpper") and len(args) == 2:
            st = st.copy(); o = clean(obj); i, v = clean(ip.val_of(st, args[0])), clean(ip.val_of(st, args[1])); k = "L" if nm == "setColLower" else "U"
            if self.shared(o):
                def elt(x): return x[1][1:] if x[0] == "i" and x[1][0] == "e" and x[1][1][0] == "v" else x[3] + x[4] if x[0] == "call" and x[1] == "elt" else None
                if elt(i) and elt(v):
                    if elt(i)[1] == elt(v)[1]: st.ts[("put", k)] = (elt(i)[0], elt(v)[0], elt(i)[1])
                else: self.chg += 1; st.ts[("chg", k)] = i; st.ts[("dirty", k)] = n.get("l"); st.note(n.get("l"), "%s bound of the shared LP changed" % ("lower" if k == "L" else "upper"))
            return [(st, ("void",))]
        if nm in ("resolve", "setWarmStart", "getColSolution", "getObjValue", "set_obj_value", "Set_x_sol", "problem", "isProvenOptimal", "isProvenPrimalInfeasible", "isDualObjectiveLimitReached", "isIterationLimitReached", "getNumCols", "doEcpRounds"): return [(st, ("call", nm, ip.site(n), (), ()))]
        return None
    def shared(self, o): return not mentions(o, lambda x: x[0] == "call" and x[1] == "clone")
    def what(self, v, o):
        # own bound of the shared LP: ("i",("e",("call",getColLower,..lin..),i))
        ks = set(); mentions(v, lambda x: ks.add(x[1]) if x[0] == "call" and x[1] in GET else False)
        return ks.pop() if len(ks) == 1 else None
    def recorded(self, st, k, i):
        """Vectors holding (index, old value) for this change."""
        g = "getColLower" if k == "L" else "getColUpper"
        iv = [key[1] for key, v in st.ts.items() if isinstance(key, tuple) and key[0] == "pb" and v == i]
        vv = [key[1] for key, v in st.ts.items() if isinstance(key, tuple) and key[0] == "pb" and v[0] == "i" and v[1][0] == "e" and v[1][2] == i and mentions(v, lambda x: x[0] == "call" and x[1] == g and mentions(x, lambda y: y[0] == "f" and y[2] == "lin_"))]
        return iv, vv
    def iter_end(self, ip, st, n):
        for k in "LU":
            i = st.ts.pop(("chg", k), None)
            if i is not None:
                iv, vv = self.recorded(st, k, i)
                if not iv or not vv: self.bad.append((n.get("l"), st.copy(), "record " + WHAT[k], "a changed %s bound of the shared LP is not recorded with its old value" % WHAT[k][:5]))
                else:
                    old = st.ts.get(("rec", k)); iv, vv = frozenset(iv), frozenset(vv)
                    st.ts[("rec", k)] = (iv & old[0], vv & old[1]) if old else (iv, vv)
        for key in [key for key in st.ts if isinstance(key, tuple) and key[0] == "pb"]: st.ts.pop(key)
    def head(self, ip, st, n):
        for k in "LU": st.ts.pop(("put", k), None)
    def loop_exit(self, ip, sts, n):
        sets = {SETS[m["name"]] for m in walk(n) if m["k"] == "call" and m.get("name") in ("setColLower", "setColUpper")}
        return sts

def lpsolver(P, R):
    fs = [f for f in P.F.values() if f["name"] == "solveFromHotStart" and f.get("b") is not None and any(m["k"] == "mem" and m["f"] == "lin_" for m in walk(f["b"]))]
    R.need(fs, "LpBranchingSolver::solveFromHotStart")
    E = next((e for e in P.E if {"Basis", "Clone"} <= {x["name"] for x in P.E[e]["v"]}), None); R.need(E, "WarmStartMethod")
    ev = {x["name"]: x["v"] for x in P.E[E]["v"]}
    for f in fs:
        for m in ("Basis", "Clone"):
            h = HL(P, m)
            puts = []
            def it(ip, st, n, h=h, puts=puts):
                pk = {k: st.ts.pop(("put", k), None) for k in "LU"}
                HL.iter_end(h, ip, st, n)
                for k, p in pk.items():
                    if p: puts.append((k, p, n, st.copy())); st.ts[("rp", k)] = p
            h.iter_end = it
            def ex(ip, sts, n, h=h):
                for s in sts:
                    for k in "LU":
                        p = s.ts.get(("rp", k)); r = s.ts.get(("rec", k))
                        inn = any(x["k"] == "call" and x.get("name") == ("setColLower" if k == "L" else "setColUpper") for x in walk(n))
                        if not inn: continue
                        # nothing recorded: nothing was changed; otherwise the loop must run over the whole record
                        full = any(a[0] == "lt" and b is False and mentions(a[2], lambda x: x[0] == "call" and x[1] == "size") for a, b in s.facts.items())
                        if not full: continue
                        if r is None and p is None or r is not None and p is not None and p[0] in r[0] and p[1] in r[1]: s.ts.pop(("dirty", k), None); s.ts["n" + k] = True
                        elif r is not None and p is None: s.ts.pop(("dirty", k), None)     # no round: the record was empty
                return sts
            h.loop_exit = ex
            ip = Interp(P, h); st = St(); st.env[("f", ("this",), "warm_start_mode_")] = C(ev[m])
            res = [(s, v) for k, s, v in ip.run(f, st) if k == "ret"]; R.ran(ip); R.need(res, "solveFromHotStart returns")
            if m == "Basis":
                R.atleast("bounds changed in the shared LP", h.chg, 2); R.atleast("bounds put back in the shared LP", len(puts), 2)
            elif h.chg: R.v("C08.lp", f, f["l"], "clone", "the shared LP is changed although the trial is to work on a copy", [])
            for l, s, c, msg in h.bad: R.ob(); R.v("C08.lp", f, l, c, msg, s.path())
            for s, v in res:
                R.ob()
                for k in "LU":
                    if s.ts.get(("dirty", k)): R.v("C08.lp", f, s.ts[("dirty", k)], "%s left" % WHAT[k], "the %s of the shared LP are not put back before the return" % WHAT[k], s.path())

# ---------------------------------------------------------------- hot start
class HH(EvHooks):
    rich = scoped = True
    def __init__(self, P):
        EvHooks.__init__(self, P, relevant=lambda n: n["k"] == "call" and n.get("name") in ("markHotStart", "unmarkHotStart"), max_inline=3, cap=400)
        self.keep = lambda a: False; self.marks = 0
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        if n.get("name") == "markHotStart": st = st.copy(); st.ts["hot"] = (clean(obj), n.get("l")); self.marks += 1; st.note(n.get("l"), "hot start marked"); return [(st, ("void",))]
        if n.get("name") == "unmarkHotStart":
            st = st.copy()
            if st.ts.get("hot", (None,))[0] == clean(obj): st.ts.pop("hot")
            return [(st, ("void",))]
        if "CoinMessageHandler" in (n.get("cls") or ""): return [(st, obj or UNK)]
        return None

class HO(EvHooks):
    rich = scoped = True
    slice = False
    def __init__(self, P): EvHooks.__init__(self, P, relevant=lambda n: n["k"] == "assign" and any(x["k"] == "mem" and x["f"] in ("optimizationStatus_", "optimizationStatusBeforeHotStart_") for x in walk(n)), max_inline=3)
    def call(self, ip, st, n, obj, args):
        if n["k"] == "call" and n.get("name") in ("markHotStart", "unmarkHotStart") and len(ip.fstack) <= 1: return [(st, ("void",))]
        return None
    def assign(self, ip, st, n, loc, val):
        if loc[0] == "f" and loc[2] in ("optimizationStatus_", "optimizationStatusBeforeHotStart_"): st.ts[loc[2]] = clean(val)

def hot(P, R):
    n = 0
    for f in P.F.values():
        if f.get("b") is None or not any(m["k"] == "call" and m.get("name") == "markHotStart" and "OsiSolverInterface" in {m.get("cls")} | set(P.bases(m.get("cls") or "")) for m in walk(f["b"])): continue
        if f["name"] in ("markHotStart",): continue
        h = HH(P); ip = Interp(P, h); res = ip.run(f, St()); R.ran(ip); n += h.marks
        outs = [(s, "return") for k, s, v in res if k == "ret"] + [(s, "throw") for s, t, m in ip.sink[0] if m is not None and m["k"] == "throw"]
        for s, how in outs:
            R.ob()
            if s.ts.get("hot"): R.v("C08.hot", f, s.ts["hot"][1], "hot start left (%s)" % how, "the hot start is not released before the %s" % how, s.path())
    R.atleast("hot starts marked", n, 1)
    mk = [f for f in P.F.values() if f.get("cls") == OSI and f["name"] == "markHotStart" and f.get("b") is not None]
    un = [f for f in P.F.values() if f.get("cls") == OSI and f["name"] == "unmarkHotStart" and f.get("b") is not None]
    R.need(mk and un, "OsiTMINLPInterface::markHotStart/unmarkHotStart")
    own, sav = ("i", ("f", ("this",), "optimizationStatus_")), ("i", ("f", ("this",), "optimizationStatusBeforeHotStart_"))
    for f, k, want in ((mk[0], "optimizationStatusBeforeHotStart_", own), (un[0], "optimizationStatus_", sav)):
        ip = Interp(P, HO(P)); seen = 0
        for kind, s, v in ip.run(f, St()):
            if kind != "ret": continue
            R.ob()
            if any(b is False and mentions(a, lambda x: x[0] == "f" and len(x) == 3 and x[2] == "strong_branching_solver_") for a, b in s.facts.items()): continue   # no special solver: Osi's own hot start
            seen += 1
            if s.ts.get(k) != want: R.v("C08.hot", f, f["l"], k, "the status of the node's NLP is not kept across strong branching", s.path())
        R.ran(ip); R.atleast("ways through %s" % f["name"], seen, 1)

# ---------------------------------------------------------------- heuristics work on copies
class HF(HS):
    def __init__(self, P, f):
        HS.__init__(self, P, f); self.uses = []
        self.keep = lambda a: False
    def rel(self, n): return n["k"] == "call" and (n.get("name") in SETS and solver_call(self.P, n) or n.get("name") in ("clone", "doLocalSearch"))
    def call(self, ip, st, n, obj, args):
        nm = n.get("name")
        if n["k"] != "call": return None
        if nm == "clone" and solver_call(self.P, n): return [(st, ("call", "clone", ip.site(n), (), ()))]
        if nm in SETS and obj is not None and solver_call(self.P, n):
            self.uses.append((n, clean(obj), st.copy())); return [(st, ("void",))]
        if nm == "doLocalSearch" and args:
            self.uses.append((n, clean(ip.val_of(st, args[0])), st.copy())); return [(st, UNK)]
        if "CoinMessageHandler" in (n.get("cls") or ""): return [(st, obj or UNK)]
        return None
    def loop(self, ip, st, n): pass
    def iter_end(self, ip, st, n): pass
    def loop_exit(self, ip, sts, n): return sts

def heuristics(P, R):
    fs = [f for f in P.F.values() if f["name"] in ("solution",) and f.get("b") is not None and f.get("cls") and "CbcHeuristic" in P.bases(f["cls"])]
    R.need(fs, "solution() of the heuristics")
    n = 0
    for f in sorted(fs, key=lambda f: f["fn"]):
        h = HF(P, f); ip = Interp(P, h); ip.run(f, St()); R.ran(ip)
        seen = set()
        for c, o, st in h.uses:
            n += 1; R.ob()
            if foreign(P, f['cls'], o) and (c["l"], o) not in seen:
                seen.add((c["l"], o))
                R.v("C08.clone", f, c.get("l"), c["name"], "%s() changes a solver the heuristic did not make for itself" % c["name"], st.path())
    R.atleast("changes made by heuristics", n, 12)

# ---------------------------------------------------------------- which problem is solved
FLAGS = ("set_use_feasibility_pump_objective", "set_use_cutoff_constraint", "set_use_local_branching_constraint")
class HX(EvHooks):
    rich = scoped = True
    def __init__(self, P, ctor):
        EvHooks.__init__(self, P, relevant=self.rel, max_inline=3, cap=400); self.keep = about_fields("feasibility_mode_", "tminlp_", "feasibilityProblem_", "problem_"); self.solves = []
    def rel(self, n):
        if writes(n, ("problem_to_optimize_", "feasibility_mode_")): return True
        return n["k"] == "call" and (n.get("name") in FLAGS + ("set_dist_to_point_obj", "set_cutoff", "set_rhs_local_branching_constraint", "GetRawPtr", "OptimizeTNLP"))
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        nm = n.get("name")
        if nm in FLAGS and args: st = st.copy(); st.ts[nm] = ip.val_of(st, args[0]); return [(st, ("void",))]
        if nm in ("set_dist_to_point_obj", "set_cutoff", "set_rhs_local_branching_constraint"): st = st.copy(); st.ts[nm] = True; return [(st, ("void",))]
        if nm == "OptimizeTNLP" and args:
            v = ip.val_of(st, args[0])
            if self.who(v) == "fp": self.solves.append((n, st.copy()))
            return [(st, ("call", nm, ip.site(n), (), ()))]
        return None
    def who(self, v):
        hit = set()
        mentions(v, lambda x: hit.add(x[2]) if x[0] == "f" and len(x) == 3 and x[1] == ("this",) and x[2] in ("feasibilityProblem_", "problem_") else False)
        return "fp" if "feasibilityProblem_" in hit else "orig" if hit else None
    def read(self, ip, st, loc):
        # keep the two problems apart whatever they were set to
        if loc in (("f", ("this",), "feasibilityProblem_"), ("f", ("this",), "problem_")): return ("i", loc)
    def assign(self, ip, st, n, loc, val):
        if loc == ("f", ("this",), "problem_to_optimize_"): st.ts["pto"] = val; st.note(n.get("l"), "problem to solve set")
        if loc == ("f", ("this",), "feasibility_mode_"): st.ts["mode"] = val; st.note(n.get("l"), "mode set")
        if loc == ("f", ("this",), "problem_"): st.ts["pset"] = True

def writes(n, names):
    if n["k"] == "assign": a = n["a"]
    elif n["k"] == "call" and n.get("op") == "=": a = n.get("obj") or (n.get("a") or [None])[0]
    else: return False
    a = peel(a) if a is not None else None
    return a is not None and a["k"] == "mem" and a["f"] in names

def mode(P, R):
    fs = [f for f in P.F.values() if f.get("cls") == OSI and f.get("b") is not None and not f.get("dtor") and
          (any(writes(n, ("problem_to_optimize_", "feasibility_mode_")) for n in walk(f["b"])) or any(n["k"] == "call" and n.get("name") in FLAGS for n in walk(f["b"])))]
    R.atleast("functions that choose the problem to solve", len(fs), 6); ns = 0
    for f in fs:
        h = HX(P, f.get("ctor")); ip = Interp(P, h); st0 = St()
        res = ip.run(f, st0); R.ran(ip)
        def flags(st, what, l):
            R.ob()
            miss = [x for x in FLAGS if x not in st.ts]
            if miss: R.v("C08.mode", f, l, "flags", "the feasibility problem is %s with %s as an earlier use left it" % (what, miss[0][8:]), st.path()); return
            if st.ts[FLAGS[1]] != ZERO and not st.ts.get("set_cutoff"): R.v("C08.mode", f, l, "cutoff", "a cutoff constraint is used with the cutoff of an earlier use", st.path())
            if st.ts[FLAGS[2]] != ZERO and not st.ts.get("set_rhs_local_branching_constraint"): R.v("C08.mode", f, l, "radius", "a local branching constraint is used with the radius of an earlier use", st.path())
            if not st.ts.get("set_dist_to_point_obj"): R.v("C08.mode", f, l, "point", "the feasibility problem is %s with the point of an earlier use" % what, st.path())
        for n, st in h.solves: ns += 1; flags(st, "solved", n.get("l"))
        for k, st, v in res:
            if k != "ret": continue
            pto, md = st.ts.get("pto"), st.ts.get("mode")
            if pto is None and md is None: continue
            R.ob()
            if pto is not None and pto == ZERO: continue
            who = h.who(pto) if pto is not None else None
            if who is None: R.v("C08.mode", f, f["l"], "problem", "feasibility mode is changed but not the problem that is solved", st.path()); continue
            # the mode known at the end of the path: set here, or tested here
            t = ip.truth(st, md) if md is not None else ip.truth(st, ("i", ("f", ("this",), "feasibility_mode_")))
            if md is not None and t is None: t = ip.truth(st, md)
            if t is None:
                for a, b in st.facts.items():
                    if a[0] == "nz" and mentions(a, lambda x: x[0] == "f" and len(x) == 3 and x[2] == "feasibility_mode_"): t = b
            if t is None: R.v("C08.mode", f, f["l"], "mode", "the problem to solve is set without the mode that goes with it: a copy would solve the other one", st.path())
            elif t != (who == "fp"): R.v("C08.mode", f, f["l"], "mode", "the problem to solve and the recorded mode contradict each other", st.path())
            elif who == "fp" and t and md is not None and md[0] == "c": flags(st, "installed", f["l"])
    R.atleast("solves of the feasibility problem", ns, 2)

# ---------------------------------------------------------------- repeated solves keep the best one, whole
class HK(EvHooks):
    rich = scoped = True
    slice = False
    REC = {"getColSolution": "x", "getRowPrice": "dual"}
    def __init__(self, P):
        EvHooks.__init__(self, P, relevant=lambda n: n["k"] == "call" and n.get("name") in ("solveAndCheckErrors", "CoinCopyN"), max_inline=2, noinline={OSI + "::solveAndCheckErrors", OSI + "::initialSolve", OSI + "::resolve"})
        self.keep = lambda a: mentions(a, lambda x: x[0] == "call" and x[1] == "now")
        self.out = []
    def now(self, st, q): return ("call", "now", 0, (st.ts.get("cur", "s0"), q), ())
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": return None
        nm = n.get("name")
        if nm == "solveAndCheckErrors":
            st = st.copy(); st.ts["cur"] = "s1"; st.note(n.get("l"), "solved again")
            for k in ("x", "dual", "obj", "status"):
                if st.ts.get(k) == "s1": st.ts[k] = "sp"
            for q in [q for q in st.facts if self.keep(q)]: del st.facts[q]
            return [(st, ("void",))]
        if nm in ("getColSolution", "getRowPrice", "getObjValue", "isProvenOptimal", "isAbandoned", "isProvenPrimalInfeasible"): return [(st, self.now(st, nm))]
        if nm == "CoinCopyN" and len(args) == 3:
            v = ip.val_of(st, args[0])
            for g, k in self.REC.items():
                if v[0] == "call" and v[1] == "now" and v[3][1] == g: st = st.copy(); st.ts[k] = v[3][0]
            return [(st, ("void",))]
        if nm == "Set_x_sol": st = st.copy(); st.ts["putx"] = True; return [(st, ("void",))]
        if nm == "Set_dual_sol": st = st.copy(); st.ts["putd"] = True; return [(st, ("void",))]
        if nm == "set_obj_value" and args: st = st.copy(); st.ts["puto"] = self.tok(ip.val_of(st, args[0]), st); return [(st, ("void",))]
        if "CoinMessageHandler" in (n.get("cls") or "") or nm in ("messageHandler", "statusAsString", "getUsedWarmStart", "make_referenced", "randomStartingPoint", "IterationCount", "CPUTime", "setNewCutoffDecr", "setWarmStart", "pow", "getNumCols", "getNumRows", "operator()", "CoinCpuTime"): return [(st, ("tmp", nm))]
        return None
    def tok(self, v, st):
        out = set(); mentions(v, lambda x: out.add(x[3][0]) if x[0] == "call" and x[1] == "now" else False)
        return out.pop() if len(out) == 1 else "dbl" if not out else "?"
    def read(self, ip, st, loc):
        if loc == ("f", ("this",), "optimizationStatus_") and "final" not in st.ts: return self.now(st, "status")
    def assign(self, ip, st, n, loc, val):
        if loc == ("f", ("this",), "optimizationStatus_"):
            st.ts["final"] = val
        elif loc[0] == "v" and val[0] == "call" and val[1] == "now" and val[3][1] == "status": st.ts["status"] = val[3][0]; st.ts["sv"] = loc
        elif loc[0] == "v" and val[0] == "call" and val[1] == "now" and val[3][1] == "getObjValue" and loc[3] == st.ts.get("bb"): st.ts["obj"] = val[3][0]
    def decl(self, ip, st, v, loc, val):
        if val is not None and val[0] == "call" and val[1] == "now" and val[3][1] == "status": st.ts["status"] = val[3][0]; st.ts["sv"] = loc

def best(P, R):
    f = next((f for f in P.F.values() if f["fn"] == OSI + "::resolveForCost" and f.get("b") is not None), None); R.need(f, "resolveForCost")
    # the variable whose value is published as the objective
    bb = None
    for n in walk(f["b"]):
        if n["k"] == "call" and n.get("name") == "set_obj_value" and n["a"] and peel(n["a"][0])["k"] == "var": bb = peel(n["a"][0])["name"]
    R.need(bb, "the objective published by resolveForCost")
    h = HK(P); ip = Interp(P, h); st = St(); st.ts["bb"] = bb; st.ts["obj"] = "s0"
    res = ip.run(f, st); R.ran(ip); m = 0
    for k, s, v in res:
        if k != "ret": continue
        R.ob()
        if not s.ts.get("putx"):
            if s.ts.get("cur"): R.v("C08.best", f, f["l"], "point", "the best point of the repeated solves is not put back", s.path())
            continue
        m += 1
        if not (s.ts.get("putd") and "puto" in s.ts and "final" in s.ts): R.v("C08.best", f, f["l"], "parts", "point, multipliers, objective and status are not all put back", s.path()); continue
        toks = {s.ts.get("x"), s.ts.get("dual"), s.ts.get("status"), s.ts.get("obj")}
        if len(toks) != 1: R.v("C08.best", f, f["l"], "mixed", "point, multipliers, objective and status put back come from different solves", s.path())
    R.atleast("ways through resolveForCost", m, 2)

def run(P, R):
    R.rule("C08.nlp", "every cut generator puts back, from copies taken before, the bounds it changed in the NLP on each return and throw; the pump does so before its next round")
    R.rule("C08.manip", "solverManip saves what its flags ask, restore() puts each saved item back, and whoever is to leave the LP unchanged calls it")
    R.rule("C08.lp", "LP strong branching records each bound it changes in the shared LP with its old value and puts all of them back, or works on a copy")
    R.rule("C08.hot", "a marked hot start is released on each return and throw, and the status of the node's NLP survives it")
    R.rule("C08.clone", "heuristics change only solvers they cloned or built")
    R.rule("C08.mode", "the problem to solve and the mode agree; every use of the feasibility problem sets all of its switches")
    R.rule("C08.best", "repeated solves leave point, multipliers, objective and status of one and the same solve")
    generators(P, R); pump(P, R); manip(P, R); lpsolver(P, R); hot(P, R); heuristics(P, R); mode(P, R); best(P, R)
