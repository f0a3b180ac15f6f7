"""C06 a cut is declared globally valid only when that was asked for."""
from .common import *

NDEBUG = False
NLP = "Bonmin::OsiTMINLPInterface"
REQ = {"getOuterApproximation", "getConstraintOuterApproximation", "getBendersCut", "get_oas", "getFeasibilityOuterApproximation"}
MARK = {"setGloballyValid", "setGloballyValidAsInteger"}
INS = {"insert", "insertIfNotDuplicate", "insertIfNotDuplicateAndClean"}

def is_cutcls(P, c):
    c = (c or "").replace("const ", "").rstrip(" &*")
    return c in ("OsiRowCut", "OsiCut", "OsiColCut", "OsiRowCut2", "Bonmin::QuadCut", "Bonmin::Cut") or c in P.C and any(b in ("OsiRowCut", "OsiCut", "OsiColCut") for b in P.bases(c))

def rel_node(n): return n["k"] == "call" and (n.get("name") in MARK or n.get("cls") == "OsiCuts" and n.get("name") in INS or n.get("name") in REQ)

def ip_req(st, req): return st.facts.get(("nz", req)) if req is not None else None

def lastbool(f):
    b = [i for i, p in enumerate(f["p"]) if p["ct"] == "bool"]
    return b[-1] if b else None

class H(EvHooks):
    rich = True
    def __init__(self, P, R, f, req):
        EvHooks.__init__(self, P, relevant=rel_node, max_inline=3, cap=200, size=2000, noinline=("Bonmin::CutStrengthener::ComputeCuts",))
        self.keep = about_fields(*[p["name"] for p in f["p"] if p["ct"] == "bool"])
        self.R = R; self.f = f; self.req = req; self.bad = []; self.ins = 0; self.marks = 0; self.fw = 0
    def want_inline(self, ip, fn, call):
        if fn["name"] in REQ and fn.get("cls") == NLP: return False
        return EvHooks.want_inline(self, ip, fn, call)
    def cutloc(self, ip, st, a):
        if a[0] == "lref": return ip.deref(st, a[1])
        if a[0] in ("addr", "obj"): return a[1]
        return a
    def call(self, ip, st, n, obj, args):
        nm = n.get("name")
        if nm in MARK:
            st = st.copy(); self.marks += 1
            o = self.cutloc(ip, st, obj) if obj else ("?",)
            v = ip.val_of(st, args[0]) if args else ONE
            st.ts[("cut", o)] = v if not (v[0] == "c" and v[1] == 0) else ZERO
            st.note(n.get("l"), "cut marked %s" % txt(n["a"][0] if n["a"] else n))
            if self.req is None and v != ZERO: self.bad.append(("C06.unasked", n, "a cut is marked globally valid in a routine nobody asks for global cuts", st))
            return [(st, ("void",))]
        if n.get("cls") == "OsiCuts" and nm in INS and args:
            a = n["a"][0]
            self.ins += 1
            if self.req is None: return None
            o = self.cutloc(ip, st, args[0])
            own = o[0] in ("v", "tmp") or o[0] == "lv"
            m = st.ts.get(("cut", o))
            v = self.req
            if m is None and not own: return None          # a copied cut keeps its mark
            if m is not None and m == v: return None       # marked with the request itself
            t = ip.truth(st, v)
            if m is None or m == ZERO:
                if t is not False: self.bad.append(("C06.dropped", n, "a cut requested as globally valid is handed over unmarked", st))
            else:
                tm = ip.truth(st, m)
                if m[0] == "c" and t is not True: self.bad.append(("C06.unasked", n, "a cut is marked globally valid although the caller did not ask for it", st))
                elif m[0] != "c" and not (t is True and tm is True): self.bad.append(("C06.unasked", n, "the mark of the cut is not the caller's request", st))
            return None
        return None
    def decl(self, ip, st, v, loc, val):
        st.ts.pop(("cut", loc), None)
    def keepkey(self, st): return ip_req(st, self.req)

def run(P, R):
    R.rule("C06.unasked", "on every path a cut inserted in the caller's collection is marked globally valid only if the caller's request (last boolean argument) is true; routines without such a request never mark")
    R.rule("C06.dropped", "on every path on which the request is true the inserted cut is marked")
    R.rule("C06.forward", "generators pass the configured scope (member global_) or their own request on to the routines that make cuts")
    R.rule("C06.local", "a cut of the caller is strengthened only with the original variable bounds; strengthening with the node's bounds works on a copy")
    R.rule("C06.scope", "the configured scope is changed only by copying, by an option or by the setter's argument")
    nreq = nins = nmark = nfw = 0
    for f in sorted(P.F.values(), key=lambda f: (f["file"], f["l"])):
        if f.get("b") is None or "/src/" not in f["file"]: continue
        calls = P.calls(f)
        hot = [n for n in calls if n.get("name") in MARK or n.get("cls") == "OsiCuts" and n.get("name") in INS]
        req = None
        if f["name"] in REQ and lastbool(f) is not None:
            req = ("p", f["p"][lastbool(f)]["name"])
        if req is not None and f.get("cls") == NLP: nreq += 1
        if hot or req is not None:
            h = H(P, R, f, req)
            ip = Interp(P, h); ip.run(f, St()); R.ran(ip); R.ob()
            nins += h.ins; nmark += h.marks
            for rule, n, msg, st in h.bad: R.v(rule, f, n.get("l"), txt(n)[:80], msg, st.path())
        # forwarding
        for n in calls:
            if n.get("name") not in REQ: continue
            g = P.target(n)
            gs = [g] if g is not None else list(P.targets(n))
            if n.get("name") == "get_oas": i = len(n["a"]) - 1
            else:
                if not gs: continue
                i = lastbool(gs[0])
            if i is None or i >= len(n["a"]): continue
            nfw += 1; R.ob()
            val = argvals(P, R, f, n, i)
            for v, st in val:
                w = v
                while w[0] in ("copy",): w = w[1]
                if w[0] == "i" and w[1][0] == "f" and w[1][2] == "global_": continue
                if w[0] == "b" or w[0] == "p" or w[0] == "i" and w[1][0] == "v":
                    if w[0] == "p" and f["p"] and lastbool(f) is not None and w[1] == f["p"][lastbool(f)]["name"]: continue
                if w[0] == "pure" and "lobal" in str(w[1]): continue
                if w == ONE and not scoped(P, f): continue
                if w == ZERO and not scoped(P, f) and req is None: continue
                R.v("C06.forward", f, n.get("l"), txt(n)[:80], "the cuts are requested with scope '%s' instead of the configured one" % show(w), st.path())
        # writers of the scope
        for n in walk(f["b"]):
            if n["k"] == "assign" and n["op"] == "=":
                a = peel(n["a"])
                if a["k"] == "mem" and a["f"] == "global_":
                    R.ob()
                    b = peel(n["b"])
                    if b["k"] in ("int", "bool"): R.v("C06.scope", f, n.get("l"), txt(n)[:80], "the configured scope is overwritten with a constant")
                    elif b["k"] == "un" and b["op"] == "!": R.v("C06.scope", f, n.get("l"), txt(n)[:80], "the configured scope is inverted")
    R.atleast("routines with a scope request", nreq, 3)
    R.atleast("insertions of cuts checked", nins, 3)
    R.atleast("marks found", nmark, 3)
    R.atleast("forwarding calls checked", nfw, 5)
    strengthen(P, R)

def scoped(P, f):
    """Does the routine have a configured scope or request it should hand on?"""
    c = f.get("cls")
    if f["name"] in REQ: return True
    cs = [c] + list(P.bases(c)) if c in P.C else []
    return any("parameter" in m for k in cs if k in P.C for m in ()) or any(x["f"] in ("global_", "parameters_") for k in cs if k in P.C for x in P.C[k]["fields"])

def show(v):
    if v == ONE: return "true"
    if v == ZERO: return "false"
    if v[0] == "b": return "a condition"
    return str(v[0])

def argvals(P, R, f, call, i):
    """Values the i-th argument takes over all paths of f."""
    out = []
    class AH(EvHooks):
        rich = True
        def want_inline(self, ip, fn, c):
            if fn["name"] in REQ: return False
            return EvHooks.want_inline(self, ip, fn, c)
        def call(self, ip, st, n, obj, args):
            if n is call:
                v = ip.val_of(st, args[i])
                if v not in [x for x, s in out]: out.append((v, st))
            return None
    h = AH(P, relevant=lambda n: n is call, max_inline=2, cap=60, size=400)
    ip = Interp(P, h); ip.run(f, St()); R.ran(ip)
    return out

BND = {"x_l": "local", "x_u": "local", "orig_x_l": "orig", "orig_x_u": "orig", "getColLower": "local", "getColUpper": "local", "getOriginalColLower": "orig"}

def strengthen(P, R):
    n_ = 0
    for f in sorted(P.F.values(), key=lambda f: (f["file"], f["l"])):
        if f.get("b") is None or f.get("cls") != "Bonmin::CutStrengthener" or f["name"] != "ComputeCuts": continue
        class SH(EvHooks):
            rich = True
            def call(self, ip, st, n, obj, args):
                nonlocal n_
                if n["k"] != "call": return None
                g = P.target(n)
                if g is None or g.get("cls") != "Bonmin::CutStrengthener" or n.get("name") not in ("HandleOneCut", "StrengthenCut"): return None
                n_ += 1; R.ob()
                kinds = set(); outs = []
                for i, a in enumerate(args):
                    v = ip.val_of(st, a)
                    for x in subs(v):
                        if x[0] in ("pure", "call") and isinstance(x[1], str) and x[1].split("::")[-1] in BND: kinds.add(BND[x[1].split("::")[-1]])
                        if x[0] == "f" and len(x) == 3 and isinstance(x[2], str) and x[2].rstrip("_") in BND: kinds.add(BND[x[2].rstrip("_")])
                    if g["p"][i]["ct"].endswith("&") and not g["p"][i]["ct"].startswith("const"):
                        outs.append(ip.deref(st, a[1]) if a[0] == "lref" else a)
                callers = [o for o in outs if not (o[0] == "v" and o[2] not in {p["id"] for p in f["p"]})]
                if "local" in kinds and callers: R.v("C06.local", f, n.get("l"), txt(n)[:60], "the caller's cut, which may be marked globally valid, is strengthened with the bounds of the current node", st.path())
                return None
        h = SH(P, relevant=lambda n: n["k"] == "call" and n.get("name") in ("HandleOneCut", "StrengthenCut"), noinline=("Bonmin::CutStrengthener::HandleOneCut", "Bonmin::CutStrengthener::StrengthenCut"), cap=200)
        ip = Interp(P, h); ip.run(f, St()); R.ran(ip)
    R.atleast("strengthening calls", n_, 2)

def subs(v):
    yield v
    for x in v:
        if isinstance(x, tuple) and x and isinstance(x[0], (str, tuple)):
            if isinstance(x[0], str): yield from subs(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str): yield from subs(y)
