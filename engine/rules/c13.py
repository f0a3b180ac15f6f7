"""C13 errors raised inside the solver are caught in the form they are thrown."""
from .common import *
from interp import catches

NDEBUG = False
UE = "Bonmin::TNLPSolver::UnsolvedError"
ANY = "..."
# what the libraries underneath raise and lets through their interface
EXTERNAL = {("Ipopt::OptionsList", "ReadFromStream"): "Ipopt::OPTION_INVALID"}
CB_BASES = ("CbcModel", "OsiSolverInterface", "OsiClpSolverInterface", "CglCutGenerator", "CbcHeuristic", "OsiChooseVariable", "CbcStrategy", "CbcTree")

def bare(t):
    t = (t or "").replace("const ", "").replace(" const", "").strip()
    return t[:-1].strip() if t.endswith("&") else t

class Esc:
    """Types of exceptions that may leave each function (least fixpoint over the
    resolved call graph, with the enclosing handlers of every call and throw)."""
    def __init__(self, P):
        self.P = P; self.T = {}; self.raw = {}
        for k, f in P.F.items():
            if f.get("b") is not None: self.raw[k] = self.collect(f)
        self.T = {k: {} for k in self.raw}
        users = {}
        for k, (own, calls) in self.raw.items():
            for c, ts, _ in calls:
                for g in c: users.setdefault(g, set()).add(k)
        work = list(self.raw)
        while work:
            k = work.pop()
            new = self.compute(k)
            if set(new) != set(self.T[k]):
                self.T[k] = new; work += users.get(k, ())
    def collect(self, f):
        own, calls = [], []
        def visit(n, hs, cur):
            if n is None or not isinstance(n, dict): return
            k = n["k"]
            if k == "try":
                visit(n["b"], hs + [n["h"]], cur)
                for h in n["h"]: visit(h["b"], hs, (h, n, hs))
                return
            if k == "throw":
                own.append((n, hs, cur))
            elif k in ("call", "ctor"):
                g = [x["key"] for x in self.P.targets(n)] if n.get("fn") else []
                e = self.external(n)
                if g or e: calls.append((g, hs, (n, e)))
            for x in kids(n): visit(x, hs, cur)
        for i in f.get("inits") or []:
            if i.get("e") is not None: visit(i["e"], [], None)
        visit(f["b"], [], None)
        return own, calls
    def external(self, n):
        for (c, m), t in EXTERNAL.items():
            if n.get("name") == m and n.get("cls") == c: return t
        return None
    def leaves(self, t, hs):
        """does a type thrown under these handlers leave the function?"""
        for level in reversed(hs):
            for h in level:
                if catches(self.P, h["ct"], t): return False
        return True
    def compute(self, k):
        r = {}
        own, calls = self.raw[k]
        for n, hs, cur in own:
            ts = [n["ct"]] if n.get("ct") else self.rethrown(k, cur)
            for t in ts:
                if self.leaves(t, hs): r.setdefault(t, (n, None))
        for gs, hs, (n, e) in calls:
            if e and self.leaves(e, hs): r.setdefault(e, (n, None))
            for g in gs:
                for t in self.T.get(g, ()):
                    if self.leaves(t, hs): r.setdefault(t, (n, g))
        return r
    def rethrown(self, k, cur):
        if cur is None: return []
        h, tr, _ = cur
        out = set()
        own, calls = self.raw.get(k, ((), ()))
        inside = {id(x) for x in walk(tr["b"])}
        for n, hs, c in own:
            if id(n) in inside and n.get("ct"): out.add(n["ct"])
        for gs, hs, (n, e) in calls:
            if id(n) in inside:
                if e: out.add(e)
                for g in gs: out |= set(self.T.get(g, ()))
        m = [t for t in out if catches(self.P, h["ct"], t)]
        if not m and h["ct"] != ANY: m = [bare(h["ct"])]
        return m
    def chain(self, k, t, d=0):
        x = self.T[k].get(t)
        if not x or d > 12: return []
        n, g = x
        return [(n.get("l"), self.P.F[k]["fn"])] + (self.chain(g, t, d + 1) if g else [])

class HH(EvHooks):
    """A handler: what is done before it ends."""
    def __init__(self, P, var):
        EvHooks.__init__(self, P, relevant=self.rel, max_inline=3); self.var = var; self.ends = []
    def rel(self, n): return n["k"] in ("throw", "delete") or n["k"] == "call" and n.get("name") == "finalize_solution"
    def call(self, ip, st, n, obj, args):
        if n["k"] == "call" and n.get("name") == "finalize_solution":
            st = st.copy(); st.ts["told"] = ip.val_of(st, args[0])
            return [(st, ("void",))]
        return None
    def delete(self, ip, st, n, val, *a):
        if mentions(val, lambda x: x[0] == "v" and x[-1] == self.var or x[0] == "p" and x[1] == self.var): st.ts["freed"] = True

def run(P, R):
    R.rule("C13.form", "every handler names a type in the form (object or pointer) in which the library or the libraries below it raise it; only unsolved errors are raised by pointer")
    R.rule("C13.rethrow", "an exception is passed on with its type: no rethrow outside a handler, no copy of a handled exception through its base class")
    R.rule("C13.told", "every NLP failure raised while the search runs is caught by the search, which tells the model of the error and passes the error on")
    R.rule("C13.leak", "an error caught by pointer is passed on or freed on every path; a catch-all never hides an error")
    R.rule("C13.c", "no exception leaves the C interface")
    R.rule("C13.dtor", "no exception leaves a destructor")
    R.rule("C13.names", "printing an error has a name for every status of the solver, distinct from the others, and raises nothing")
    R.rule("C13.kind", "a failed NLP solve is reported by an unsolved error and by no other kind")
    E = Esc(P)
    thrown = {}
    for k, (own, _) in E.raw.items():
        for n, hs, cur in own: thrown.setdefault(n.get("ct"), []).append((P.F[k], n, cur))
    R.atleast("throw sites", sum(len(v) for v in thrown.values()), 60)
    for t, v in thrown.items(): R.count("throws of " + str(t), len(v))
    ptr = {t for t in thrown if t and t.endswith("*")}
    is_a = lambda t, b: t == b or b in P.bases(t)
    for t in ptr:
        for f, n, cur in thrown[t]:
            R.ob()
            if not is_a(bare(t[:-1]), UE): R.v("C13.form", f, n.get("l"), "throw", "an exception is raised by pointer (%s); no layer expects it in this form" % t)
    for t in thrown:
        if t and not t.endswith("*") and is_a(bare(t), UE):
            for f, n, cur in thrown[t]: R.ob(); R.v("C13.form", f, n.get("l"), "throw", "an unsolved error is raised by value, but is caught by pointer")
    # handlers
    hn = 0
    for k, f in sorted(P.F.items(), key=lambda x: x[1]["fn"]):
        for tr in walk(f.get("b")):
            if tr["k"] != "try": continue
            seen = []
            for h in tr["h"]:
                hn += 1; R.ob(); c = h["ct"]; b = bare(c)
                for p in seen:
                    if p == ANY or catches(P, p, b): R.v("C13.form", f, h.get("l"), c, "this handler is never reached: an earlier one catches the same"); break
                seen.append(c)
                if c == ANY: continue
                if b.endswith("*"):
                    x = bare(b[:-1])
                    if not any(catches(P, c, t) for t in ptr): R.v("C13.form", f, h.get("l"), c, "nothing raises a %s by pointer" % x)
                else:
                    if is_a(b, UE): R.v("C13.form", f, h.get("l"), c, "unsolved errors are raised by pointer: this handler does not catch them")
            if tr["h"] and f["fn"].startswith("Bonmin::Bab"): pass
            for h in tr["h"]:
                c = h["ct"]; var = (h.get("var") or {}).get("name")
                # copies through the base class
                for n in walk(h["b"]):
                    if n["k"] == "throw" and n.get("ct") and n.get("e") is not None and not n["ct"].endswith("*"):
                        e = peel(n["e"])
                        while e is not None and e["k"] == "ctor" and len(e.get("a") or []) == 1: e = peel(e["a"][0])
                        if e is not None and e["k"] == "var" and var and e["name"] == var and bare(c) not in ("int",):
                            R.ob()
                            if P.derived(bare(n["ct"])) or bare(n["ct"]) in ("Ipopt::IpoptException", "CoinError", "std::exception"):
                                R.v("C13.rethrow", f, n.get("l"), "copy", "the exception is passed on as a %s: its own type is lost" % n["ct"])
                if c == ANY or c.rstrip().endswith("*"):
                    R.ob()
                    hk = HH(P, var); ip = Interp(P, hk)
                    st = St()
                    ff = {**f, "b": h["b"], "inits": [], "p": []}
                    res = ip.run(ff, st); R.ran(ip)
                    cfun = c_linkage(f)
                    for kind, s, v in res:
                        if kind == "throw": continue
                        if c != ANY and not s.ts.get("freed"): R.v("C13.leak", f, h.get("l"), c, "an error caught by pointer is neither freed nor passed on", s.path())
                        if not cfun and returns_plain(f): R.v("C13.leak", f, h.get("l"), c + "/swallowed", "the error ends here: the caller takes the solve for a success", s.path())
    R.atleast("handlers", hn, 12)
    # rethrow outside a handler
    inh = set()
    for k, (own, calls) in E.raw.items():
        pass
    called_in = {}
    for k, f in P.F.items():
        if f.get("b") is None: continue
        hand = set()
        for tr in walk(f["b"]):
            if tr["k"] == "try":
                for h in tr["h"]: hand |= {id(x) for x in walk(h["b"])}
        for n in walk(f["b"]):
            if n["k"] in ("call", "ctor") and n.get("fn"):
                for g in P.targets(n): called_in.setdefault(g["key"], []).append(id(n) in hand)
    for f, n, cur in thrown.get(None, []):
        R.ob()
        if cur is None and not (called_in.get(f["key"]) and all(called_in[f["key"]])): R.v("C13.rethrow", f, n.get("l"), "throw;", "rethrows although nothing was caught: the program is ended")
    # the search
    fs = [f for f in P.F.values() if f.get("b") is not None and f.get("cls") and not f.get("ctor") and any(n["k"] == "call" and n.get("name") == "finalize_solution" for n in walk(f["b"])) and any(n["k"] == "call" and n.get("name") == "branchAndBound" and n.get("cls") == "CbcModel" for n in walk(f["b"]))]
    R.need(fs, "the search that tells the model how it ended")
    for f in fs:
        own, calls = E.raw[f["key"]]
        n0 = 0
        for gs, hs, (n, e) in calls + [([], hs, (n, None)) for n, hs in ext_solves(P, f)]:
            may = any(t.endswith("*") and is_a(bare(t[:-1]), UE) for g in gs for t in E.T.get(g, ())) or not gs and not e
            if not may: continue
            n0 += 1; R.ob()
            if E.leaves(UE + " *", hs): R.v("C13.told", f, n.get("l"), txt(n)[:50], "an NLP failure raised here is not caught: the model is not told of the error")
        R.atleast("calls of the search that may fail", n0, 2)
        en = {v["name"]: v["v"] for v in P.E["Bonmin::TMINLP::SolverReturn"]["v"]}
        for tr in walk(f["b"]):
            if tr["k"] != "try": continue
            for h in tr["h"]:
                if not catches(P, h["ct"], UE + " *"): continue
                hk = HH(P, (h.get("var") or {}).get("name")); ip = Interp(P, hk)
                res = ip.run({**f, "b": h["b"], "inits": [], "p": []}, St()); R.ran(ip)
                for kind, s, v in res + [("throw", x[0], None) for x in ip.sink[0]] if ip.sink else res:
                    R.ob()
                    if s.ts.get("told") != C(en["MINLP_ERROR"]): R.v("C13.told", f, h.get("l"), "finalize_solution", "the error is handled without telling the model of it", s.path())
                    if kind == "ret": R.v("C13.told", f, h.get("l"), "hidden", "the error is not passed on to the caller", s.path())
                break           # later handlers do not get it
    # C interface, destructors
    nc = 0
    for k, f in P.F.items():
        if f.get("b") is None: continue
        if c_linkage(f):
            nc += 1; R.ob()
            for t in sorted(E.T[k]):
                ch = E.chain(k, t)
                R.v("C13.c", f, ch[0][0] if ch else f["l"], t, "an exception of type %s may reach the C caller" % t, [("%s:%s" % (b, a)) for a, b in ch])
        if f.get("dtor"):
            R.ob(); R.count("destructors")
            for t in sorted(E.T[k]): R.v("C13.dtor", f, f["l"], t, "an exception of type %s may leave the destructor" % t)
    R.atleast("functions of the C interface", nc, 8)
    names(P, R); kind_of(P, R)

def c_linkage(f): return "::" not in f["fn"] and f["file"].endswith("BonStdCInterface.cpp") and not (f.get("m") or "").startswith("_Z") and not f.get("cls")
def returns_plain(f): return True
def ext_solves(P, f):
    out = []
    def visit(n, hs):
        if n is None: return
        if n["k"] == "try":
            visit(n["b"], hs + [n["h"]])
            for h in n["h"]: visit(h["b"], hs)
            return
        if n["k"] == "call" and n.get("name") in ("branchAndBound", "initialSolve", "resolve") and not [g for g in P.targets(n) if g.get("b") is not None]: out.append((n, hs))
        for x in kids(n): visit(x, hs)
    visit(f["b"], [])
    return out

def names(P, R):
    fs = [f for f in P.F.values() if f["name"] == "errorName" and f.get("b") is not None]
    R.need(fs, "errorName")
    for f in fs:
        if "Ipopt" not in f["fn"]: continue
        en = P.E.get("ApplicationReturnStatus") or P.E.get("Ipopt::ApplicationReturnStatus")
        R.need(en, "Ipopt's statuses")
        got = {}
        for e in en["v"]:
            class HN(EvHooks):
                def call(self, ip, st, n, obj, args):
                    if n["k"] == "call" and n.get("name") == "errorNum": return [(st, C(e["v"]))]
                    return None
            ip = Interp(P, HN(P, relevant=lambda n: False)); res = ip.run(f, St()); R.ran(ip); R.ob()
            th = ip.sink[0] if ip.sink else []
            if th: R.v("C13.names", f, f["l"], e["name"], "printing an error with status %s raises another exception" % e["name"]); continue
            vals = {str(v) for k, s, v in res if k == "ret"}
            for v in vals:
                if v in got and got[v] != e["name"]: R.v("C13.names", f, f["l"], e["name"], "%s is printed under the name of %s" % (e["name"], got[v]))
                got[v] = e["name"]
        R.atleast("statuses", len(got), 12)

class HK(EvHooks):
    rich = True
    Q = ("isError", "isRecoverable", "isAbandoned")
    def __init__(self, P):
        EvHooks.__init__(self, P, relevant=self.rel, max_inline=3); self.keep = lambda a: mentions(a, lambda x: x[0] == "call" and x[1] == "c13")
    def rel(self, n): return n["k"] == "throw" or n["k"] == "call" and n.get("name") in self.Q
    def call(self, ip, st, n, obj, args):
        if n["k"] == "call" and n.get("name") in self.Q: return [(st, ("call", "c13", (n["name"],), (), ()))]
        return None

def kind_of(P, R):
    fs = [f for f in P.F.values() if f.get("b") is not None and f.get("cls") in ("Bonmin::OsiTMINLPInterface", "Bonmin::CbcNlpStrategy") and any(n["k"] == "call" and n.get("name") in HK.Q for n in walk(f["b"])) and any(n["k"] == "throw" for n in walk(f["b"]))]
    k = 0
    for f in fs:
        h = HK(P); ip = Interp(P, h); ip.run(f, St()); R.ran(ip)
        mine = {id(n) for n in walk(f["b"])}
        for s, ty, node in (ip.sink[0] if ip.sink else []):
            if id(node) in mine and any(a[0] == "nz" and a[1][0] == "call" and a[1][1] == "c13" and b == (a[1][2][0] != "isRecoverable") for a, b in s.facts.items()):
                k += 1; R.ob()
                if not (ty and ty.endswith("*")): R.v("C13.kind", f, node.get("l"), "throw", "a failed solve is reported as a %s; what handles failed solves does not catch it" % ty, s.path())
    R.atleast("reports of failed solves", k, 2)
