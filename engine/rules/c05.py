"""C05 memory is released exactly once, with the matching operation."""
from .common import *

NDEBUG = False
ARRAY_MAKERS = {"CoinCopyOfArray", "CoinCopyOfArrayPartial", "CoinCopyOfArrayOrZero"}
OBJECT_MAKERS = {"clone", "getWarmStart", "getEmptyWarmStart", "internal_getWarmStart", "build_fake_basis", "createBranch", "cloneEmpty"}
SCALARS = ("double", "int", "char", "float", "bool", "unsigned", "long", "short", "Number", "Index", "size_t")
TAKERS = ("assign", "adopt", "take", "own", "gift")

def is_scalar(t):
    t = t.replace("const", "").replace("*", " ").replace("&", " ").strip()
    t = t.split("::")[-1].strip()
    return any(t == s or t.startswith(s + " ") for s in SCALARS) or "Type" in t or "Enum" in t

def smart(t): return "SmartPtr" in t or "auto_ptr" in t or "unique_ptr" in t or "shared_ptr" in t or "ReferencedPtr" in t

def P_bases(P, c): return P.bases(c) if c else []

class Own:
    """Which parameters a repository function keeps, frees or hands on."""
    def __init__(self, P): self.P = P; self.c = {}
    def keeps(self, f, i):
        k = (f["key"], i)
        if k in self.c: return self.c[k]
        self.c[k] = False
        if f.get("b") is None or i >= len(f["p"]): self.c[k] = True; return True
        pid = f["p"][i]["id"]
        self.c[k] = self._scan(f, f["b"], pid) or any(self._scan(f, x.get("e"), pid) for x in f.get("inits", ()) if x.get("e"))
        return self.c[k]
    def owns(self, f, i, seen=None):
        """The object passed as parameter i becomes the property of another one
        (it is stored in a member its destructor frees)."""
        k = ("own", f["key"], i)
        if k in self.c: return self.c[k]
        self.c[k] = False
        r = False
        if f.get("b") is not None and i < len(f["p"]):
            pid = f["p"][i]["id"]
            df = set()
            for q in [f.get("cls")] + (P_bases(self.P, f.get("cls"))): df |= self.dfrees.get(q, set())
            for n in list(walk(f["b"])) + [y for x in f.get("inits", ()) if x.get("e") is not None for y in walk(x["e"])]:
                if n["k"] == "assign" and self._is(n.get("b"), pid):
                    a = peel(n["a"])
                    if a is not None and a["k"] == "mem" and a["f"] in df and peel(a["b"]).get("k") == "this": r = True
                if n["k"] in ("call", "ctor"):
                    for j, a in enumerate(n.get("a", ())):
                        if self._is(a, pid) and any(self.owns(t, j) for t in self.P.targets(n)): r = True
            for x in f.get("inits", ()):
                if x.get("e") is not None and x.get("f") in df and self._is(x["e"], pid): r = True
        self.c[k] = r
        return r
    dfrees = {}
    def _is(self, n, pid):
        n = peel(n) if n is not None else None
        if n is not None and n.get("k") == "un" and n.get("op") in ("*", "&") and n.get("e") is not None: n = peel(n["e"])
        return n is not None and n.get("k") == "var" and n.get("id") == pid
    def _scan(self, f, body, pid):
        for n in walk(body):
            k = n["k"]
            if k == "delete" and self._is(n["e"], pid): return True
            if k == "assign" and self._is(n.get("b"), pid): return True
            if k == "return" and n.get("e") is not None and self._is(n["e"], pid): return True
            if k == "throw" and n.get("e") is not None and self._is(n["e"], pid): return True
            if k == "decl":
                for v in n.get("v", ()):
                    if v.get("e") is not None and self._is(v["e"], pid): return True
            if k in ("call", "ctor"):
                for j, a in enumerate(n.get("a", ())):
                    if not self._is(a, pid): continue
                    h = n.get("how", "")[j:j + 1] or "v"
                    if h == "P" or h == "R": continue
                    t = self.P.target(n)
                    if t is None or self.keeps(t, j): return True
            if k == "new" and n.get("e") is None: continue
        if f.get("ctor"):
            for x in f.get("inits", ()):
                if x.get("e") is not None and self._is(x["e"], pid): return True
        return False

def fresh_makers(P):
    """Repository functions every return of which is a fresh allocation (or NULL)."""
    M = set()
    def val(f, e, depth=0):
        """True fresh, None null, False anything else"""
        r = []
        for y in alts(e):
            if y["k"] in ("null", "zero") or (y["k"] == "int" and y["v"] == 0): r.append(None)
            elif y["k"] == "new": r.append(True)
            elif y["k"] == "call" and y.get("name") in OBJECT_MAKERS and "*" in y.get("t", "*"): r.append(True)
            elif y["k"] == "call" and P.targets(y) and all(g["key"] in M for g in P.targets(y)): r.append(True)
            elif y["k"] == "var" and depth < 2:
                if y["name"] in {p["name"] for p in f["p"]}: return False
                srcs = []
                for n in walk(f["b"]):
                    if n["k"] == "decl":
                        for v in n["v"]:
                            if v.get("id") == y.get("id") and v.get("e") is not None: srcs.append(v["e"])
                    if n["k"] == "assign":
                        a = peel(n["a"])
                        if a is not None and a["k"] == "var" and a.get("id") == y.get("id"): srcs.append(n["b"])
                        b = peel(n["b"])
                        if b is not None and b["k"] == "var" and b.get("id") == y.get("id") and (a is None or a["k"] != "var"): return False
                if not srcs: return False
                r += [val(f, x, depth + 1) for x in srcs]
            else: return False
        if False in r: return False
        return True if True in r else None
    again = True
    cand = [f for f in P.F.values() if f.get("b") is not None and in_repo(f) and not f.get("ctor") and not f["name"].startswith(("~", "operator"))]
    cand = [f for f in cand if any(n["k"] == "return" and n.get("e") is not None for n in walk(f["b"]))]
    while again:
        again = False
        for f in cand:
            if f["key"] in M: continue
            rs = [val(f, n["e"]) for n in walk(f["b"]) if n["k"] == "return" and n.get("e") is not None]
            if rs and False not in rs and True in rs and "*" in f.get("ret", "*") and not smart(f.get("ret", "")) and "Error" not in f.get("ret", ""): M.add(f["key"]); again = True
    return M

class H(EvHooks):
    makers = ()
    slice = False
    rich = True
    def __init__(self, P, R, f, O, own, rep):
        EvHooks.__init__(self, P, relevant=lambda n: n["k"] in ("delete", "new"), max_inline=3, cap=120, size=260)
        self.R = R; self.f = f; self.O = O; self.own = own; self.rep = rep
        self.form = {}     # token -> array?
        self.where = {}    # token -> line
        self.vt = {}
        self.dtor = f["name"].startswith("~")
        self.thrown = {id(y) for x in walk(f["b"]) if x["k"] == "throw" and x.get("e") is not None for y in walk(x["e"])} if f.get("b") is not None else set()
        self.refs = {p["name"] for p in f["p"] if p["ct"].rstrip().endswith("&")}
    internal = ()
    def want_inline(self, ip, fn, call):
        if ip.trivial(fn): return True
        if fn["key"] in self.internal and fn.get("cls") == self.f.get("cls") and ip.size(fn) <= 260 and self.contains(ip, fn): return True
        if fn.get("ctor"): return False
        if fn["name"] == "clone" or fn["name"].startswith("operator"): return False
        if fn.get("cls") == self.f.get("cls") and call.get("obj") is not None and peel(call["obj"]).get("k") == "this":
            return ip.size(fn) <= 260 and self.contains(ip, fn)
        return False
    # ---- tokens
    def tok(self, v):
        """The tracked allocation a pointer value belongs to."""
        if v is None: return None
        v = root(v)
        if v[0] == "new": return v
        if v[0] == "call" and v in self.form: return v
        if v[0] == "i" and len(v) >= 2 and v[1][0] == "f" and v[1][1] == ("this",): return v
        return None
    def live(self, st, t): return st.ts.get(("o", t)) == "live"
    def esc(self, st, t):
        if t is not None and self.live(st, t): st.ts[("o", t)] = "esc"
    def start(self, ip, st, n, v, arr):
        if len(ip.frames) > 4: return
        if st.ts.get(("o", v)) == "live" and not self.lost(ip, st, v):
            self.rep("C05.leak", n.get("l"), "allocation %s is made again" % self.name(ip, v, n), "the %s allocated here in an earlier iteration is neither freed nor kept" % self.what(v), st)
        self.form[v] = arr; self.where[v] = n.get("l")
        st.ts[("o", v)] = "live"
    def lost(self, ip, st, t):
        """A variable that received t was generalised over loop iterations and
        is NULL here: this combination is not a real path."""
        # a dynamic_cast of a fresh copy to its own type does not fail
        if any(a[0] == "nz" and not b and a[1][0] == "dyn" and a[1][2] == t for a, b in st.facts.items()): return True
        if t[0] == "call" and ip.truth(st, t) is False: return True
        for loc in st.ts.get(("h", t), ()):
            cur = st.env.get(loc)
            if cur is not None and cur != t and root(cur)[0] in ("lv", "join") and ip.truth(st, cur) is False: return True
        return False
    def what(self, v): return ("array of " if self.form.get(v) else "") + (str(v[2]) if v[0] == "new" else "object from " + v[1].split("::")[-1] if v[0] == "call" else v[1][2])
    def name(self, ip, v, n): return self.what(v)
    def new(self, ip, st, n, v):
        if n.get("placement") or id(n) in self.thrown: return
        t = n.get("t", "")
        c = self.P.C.get(t.replace("const ", "").replace("*", "").strip())
        self.start(ip, st, n, v, bool(n.get("arr")))
    def after_call(self, ip, st, n, obj, args, val):
        if val[0] != "call" or n["k"] != "call" or id(n) in self.thrown: return
        nm = n.get("name")
        t = n.get("t", "")
        if "*" not in t or smart(t): return
        tg = self.P.targets(n)
        if nm in ARRAY_MAKERS or nm in OBJECT_MAKERS or (tg and all(g["key"] in self.makers for g in tg)):
            self.start(ip, st, n, val, nm in ARRAY_MAKERS)
    # ---- flow
    def assign(self, ip, st, n, loc, val):
        t = self.tok(val)
        sm = n.get("k") == "call" and smart(n.get("fn", ""))
        if loc[0] == "f" and loc[1] == ("this",) and not sm:
            old = ip.read(st, loc)
            x = loc[2]
            st.ts[("set", x)] = 1
            if st.ts.get(("o", old)) == "dead": st.ts[("o", old)] = "gone"
            if t is not None and t[0] in ("new", "call"): st.ts[("got", x)] = self.form.get(t)
            if x in self.own and not self.f.get("ctor") and old != val:
                ot = self.tok(old)
                if old[0] == "i" and ip.truth(st, old) is not False and st.ts.get(("o", old)) is None: st.ts[("o", old)] = "live"; self.where[old] = n.get("l")
        if t is None: return
        if loc[0] == "v" and t[0] != "i": st.ts[("h", t)] = tuple(sorted(set(st.ts.get(("h", t), ())) | {loc}, key=str))
        if sm or loc[0] in ("f", "e", "g"):
            if t[0] == "i" and loc[0] == "f" and loc[1] == ("this",): pass
            else: self.esc(st, t)
        elif loc[0] == "v" and n.get("k") != "init" and smart(self.vt.get(loc, "")): self.esc(st, t)
        elif loc[0] == "v" and loc[3] in self.refs: self.esc(st, t)
    def decl(self, ip, st, v, loc, val):
        self.vt[loc] = v.get("ct", "")
        t = self.tok(val) if val is not None else None
        if t is not None and t[0] != "i": st.ts[("h", t)] = tuple(sorted(set(st.ts.get(("h", t), ())) | {loc}, key=str))
        if val is not None and smart(v.get("ct", "")): self.esc(st, t)
    def delete(self, ip, st, n, v):
        if v == ZERO: return
        t = self.tok(v)
        if t is None or (t[0] == "i" and len(ip.frames) > 3):
            if v[0] in ("lv", "join", "out", "unk", "call", "pure"):
                for k in [k for k in st.ts if k[0] == "o" and st.ts[k] == "live"]: st.ts[k] = "esc"
            return
        if ip.truth(st, v) is False: return
        s = st.ts.get(("o", t))
        if s == "given" and not ip.truth(st, v) is False:
            self.rep("C05.double", n.get("l"), "delete %s after %s" % (txt(n["e"]), self.where.get(("given", t))), "%s is freed although %s handed it to an object that frees it" % (txt(n["e"]), self.where.get(("given", t))), st)
        if s == "dead":
            self.rep("C05.double", n.get("l"), "delete %s" % txt(n["e"]), "%s is freed a second time" % txt(n["e"]), st)
        if t in self.form and self.form[t] != bool(n.get("arr")):
            self.rep("C05.form", n.get("l"), "delete %s" % txt(n["e"]), "%s was allocated with %s and is freed with %s" % (txt(n["e"]), "new[]" if self.form[t] else "new", "delete[]" if n.get("arr") else "delete"), st)
        st.ts[("o", t)] = "dead"
        if t[0] == "i": st.ts[("del", t[1][2])] = "arr" if n.get("arr") else "one"
    def read(self, ip, st, loc):
        if loc[0] in ("e", "f"):
            b = loc[1]
            if b[0] == "obj": return None
            t = self.tok(b)
            if t is not None and st.ts.get(("o", t)) == "dead":
                self.rep("C05.use", None, "use of freed %s" % self.what(t), "%s is used after it was freed" % self.what(t), st)
        return None
    def call(self, ip, st, n, obj, args):
        if obj is not None and n["k"] == "call":
            t = self.tok(obj)
            if t is not None and st.ts.get(("o", t)) == "dead" and ip.truth(st, obj) is not False:
                self.rep("C05.use", n.get("l"), "call %s on freed object" % n.get("name"), "method %s is called on an object that was freed" % n.get("name"), st)
        how = n.get("how", "")
        for i, a in enumerate(args):
            h = how[i:i + 1] or "v"
            v = ip.val_of(st, a)
            t = self.tok(v)
            if t is None: continue
            if st.ts.get(("o", t)) == "dead" and h in "pPrR" and a[0] != "lref" and t[0] != "i" and n["k"] == "call":
                self.rep("C05.use", n.get("l"), "freed memory passed to %s" % n.get("name"), "memory passed to %s was freed" % n.get("name"), st)
            if not self.live(st, t): continue
            if a[0] == "lref":
                g = self.P.target(n)
                if "*" in (n["a"][i].get("t") or "*") and not (g is not None and not self.keeps_ref(g, i)): self.esc(st, t)
                continue
            if h in ("P", "R"): continue
            g = self.P.target(n)
            if g is not None and t[0] in ("new", "call") and n["k"] in ("call", "ctor") and any(self.O.owns(q, i) for q in self.P.targets(n)):
                st.ts[("o", t)] = "given"; self.where[("given", t)] = n.get("name") or n.get("cls"); continue
            if t[0] == "new" and is_scalar(str(t[2])) or (t[0] == "call" and self.form.get(t)):
                if g is None:
                    if (n.get("name") or "").startswith(TAKERS) or smart(n.get("fn", "")): self.esc(st, t)
                elif self.O.keeps(g, i): self.esc(st, t)
            else:
                if g is None or self.O.keeps(g, i): self.esc(st, t)
        return self.make(ip, st, n)
    def make(self, ip, st, n):
        if n["k"] != "call" or id(n) in self.thrown or not n.get("cm"): return None
        t = n.get("t", "")
        if "*" not in t or smart(t): return None
        tg = self.P.targets(n)
        if not (n.get("name") in OBJECT_MAKERS or (tg and all(g["key"] in self.makers for g in tg))): return None
        v = ("call", n["fn"], ("mk", n.get("l"), txt(n)))
        self.start(ip, st, n, v, False)
        return [(st, v)]
    def keeps_ref(self, g, i): return True

def own_throw(ip, st, mine):
    return any(x[0] is st and id(x[2]) in mine for x in ip.sink[0])

def exit_checks(h, ip, kind, st, val, rep, f, internal=False):
    if kind == "ret" or kind == "throw":
        t = h.tok(val) if kind == "ret" else None
        if t is not None: h.esc(st, t)
        if kind == "ret" and val is not None:
            for k in list(st.ts):
                if k[0] == "o" and st.ts[k] == "live" and mentions(val, lambda x: x == k[1]): st.ts[k] = "esc"
    heldby = {}
    for k, v in st.env.items():
        if k[0] in ("f", "e", "g"):
            t = h.tok(v)
            if t is not None: heldby[t] = k
    for k, s in st.ts.items():
        if k[0] != "o": continue
        t = k[1]
        if s == "live" and t not in heldby and not h.lost(ip, st, t):
            if t[0] == "i":
                if ip.truth(st, t) is False or internal: continue
                rep("C05.leak", h.where.get(t), "%s overwritten" % t[1][2], "member %s is replaced while it may still own memory" % t[1][2], st)
            else:
                rep("C05.leak", h.where.get(t), "leak of %s%s" % (h.what(t), " on throw" if kind == "throw" else ""), "%s allocated at line %s is neither freed nor handed on when the function %s" % (h.what(t), h.where.get(t), "throws" if kind == "throw" else "returns"), st)
        if s == "dead" and t[0] == "i" and not h.dtor and not internal:
            cur = st.env.get(t[1])
            if cur is None or cur == t:
                if st.ep.get(("F", t[1][2])) is not None: continue
                rep("C05.dangling", f["l"], "%s dangling" % t[1][2], "member %s is freed and left pointing at freed memory" % t[1][2], st)

def owned_fields(P, R):
    """class -> {member: 'one'|'arr'|'elems'} freed by its destructor whatever happens."""
    out = {}
    for f in P.F.values():
        c = P.C.get(f.get("cls"))
        if c is None or not c.get("inrepo") or not f["name"].startswith("~") or f.get("b") is None: continue
        raw = {x["f"]: x["ct"] for x in c["fields"]}
        h = H(P, R, f, Own(P), {}, lambda *a: None)
        ip = Interp(P, h)
        res = [r for r in ip.run(f, St()) if r[0] == "ret"]
        R.ran(ip)
        own = {}
        for x in raw:
            forms, ok = set(), True
            for _, st, _ in res:
                d = st.ts.get(("del", x))
                if d: forms.add(d); continue
                isnull = any(a[0] == "nz" and not b and mentions(a, lambda y: y == ("f", ("this",), x)) for a, b in st.facts.items()) or any(a[0] == "eq" and b and ZERO in a and mentions(a, lambda y: y == ("f", ("this",), x)) for a, b in st.facts.items())
                if not isnull: ok = False
            if forms and ok: own[x] = forms.pop()
        for n in walk(f["b"]):
            if n["k"] != "delete": continue
            for m in walk(n["e"]):
                if m["k"] == "mem" and m["f"] in raw and m["f"] not in own and peel(n["e"]) is not m: own[m["f"]] = "elems"
        # elements freed in a loop over an iterator of the member
        for n in walk(f["b"]):
            if n["k"] != "delete": continue
            for m in walk(n["e"]):
                if m["k"] != "var": continue
                for d in walk(f["b"]):
                    if d["k"] == "decl":
                        for v in d["v"]:
                            if v.get("id") == m.get("id") and v.get("e") is not None:
                                for y in walk(v["e"]):
                                    if y["k"] == "mem" and y["f"] in raw and y["f"] not in own and not raw[y["f"]].rstrip().endswith("*"): own[y["f"]] = "elems"
        if own: out[c["qn"]] = own
    return out

def check_paths(P, R, own):
    R.rule("C05.leak", "memory a function obtains (new, clone, CoinCopyOfArray, getWarmStart) is freed, stored, returned or handed to an owner on every path that returns or throws explicitly; an owning member is freed before it is replaced")
    R.rule("C05.double", "nothing is freed twice on a path")
    R.rule("C05.use", "nothing is used after it was freed")
    R.rule("C05.form", "new[] is matched by delete[], new by delete")
    R.rule("C05.dangling", "a member that is freed is reset before the function returns")
    O = Own(P)
    n = al = 0
    dt = dtor_only(P)
    H.internal = internal_helpers(P)
    for f in sorted(P.F.values(), key=lambda f: (f["file"], f["l"])):
        if f.get("b") is None or not in_repo(f): continue
        if not any(x["k"] in ("new", "delete") or (x["k"] == "call" and (x.get("name") in ARRAY_MAKERS | OBJECT_MAKERS or any(g["key"] in H.makers for g in P.targets(x)))) for x in walk(f["b"])): continue
        n += 1
        def rep(rule, line, construct, msg, st):
            R.v(rule, f, line or f["l"], construct, msg, st.path() if st is not None else None)
        h = H(P, R, f, O, own.get(f.get("cls"), {}), rep)
        if f["key"] in dt: h.dtor = True
        ip = Interp(P, h)
        mark = len(R.viol)
        res = ip.run(f, St())
        R.ran(ip)
        mine = {id(x) for x in walk(f["b"]) if x["k"] == "throw"}
        for kind, st, val in res:
            if enum_dead(P, st): continue
            if kind == "throw" and not own_throw(ip, st, mine): continue
            exit_checks(h, ip, kind, st, val, rep, f, f["key"] in H.internal)
        al += len(h.form)
        R.ob(len(h.form) + 1)
    R.count("functions that manage memory", n)
    R.count("allocation sites followed", al)
    R.atleast("functions managing memory", n, 60)

def in_repo(f): return "/src/" in f["file"]

def internal_helpers(P):
    """Methods that only other methods of the same class call, on this."""
    bad, called = set(), set()
    for f in P.F.values():
        for c in P.calls(f):
            for g in P.targets(c):
                if c["k"] == "call" and g.get("cls") == f.get("cls") and g["key"] != f["key"] and c.get("obj") is not None and peel(c["obj"]).get("k") == "this": called.add(g["key"])
                else: bad.add(g["key"])
    return {k for k in called - bad if not P.F[k]["name"].startswith(("~", "operator")) and not P.F[k].get("ctor") and not P.F[k].get("virt")}

def enum_dead(P, st):
    """The path excludes every value of an enumeration."""
    ex = {}
    for a, b in st.facts.items():
        if a[0] != "eq" or b: continue
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if y[0] == "c" and x[0] == "i" and x[1][0] == "f": ex.setdefault(x, set()).add(y[1])
        if ZERO in a: pass
    for a, b in st.facts.items():
        if a[0] == "nz" and b and a[1] in ex: ex[a[1]].add(0)
    if not ex: return False
    for x, vals in ex.items():
        for c in P.C.values():
            for fl in c["fields"]:
                if fl["f"] == x[1][2]:
                    e = P.E.get(fl["ct"].replace("enum ", "").replace("const ", ""))
                    if e and {v["v"] for v in e["v"]} <= vals: return True
    return False

def dtor_only(P):
    """Functions called from destructors only."""
    callers = {}
    for f in P.F.values():
        for c in P.calls(f):
            for g in P.targets(c): callers.setdefault(g["key"], set()).add(f["key"])
    D = {f["key"] for f in P.F.values() if f["name"].startswith("~")}
    return {k for k, v in callers.items() if v and v <= D}

def ptr_fields(c): return {x["f"]: x["ct"] for x in c["fields"] if x["ct"].rstrip().endswith("*") and not smart(x["ct"])}

def dtor_frees(P):
    """class -> members its destructor (or what it calls) frees"""
    dfrees = {}
    for f in P.F.values():
        if not f["name"].startswith("~"): continue
        for g in P.reach(f, virt=False):
            if g["key"] != f["key"] and g.get("cls") not in [f["cls"]] + P.bases(f["cls"]): continue
            for n in walk(g.get("b")):
                if n["k"] == "delete":
                    for m in walk(n["e"]):
                        if m["k"] == "mem": dfrees.setdefault(f.get("cls"), set()).add(m["f"])
                        if m["k"] == "var":
                            for d in walk(g["b"]):
                                if d["k"] == "decl":
                                    for v in d["v"]:
                                        if v.get("id") == m.get("id") and v.get("e") is not None: dfrees.setdefault(f.get("cls"), set()).update(y["f"] for y in walk(v["e"]) if y["k"] == "mem")
    return dfrees

def check_classes(P, R, own):
    R.rule("C05.three", "a class whose destructor frees a member defines (or forbids) its copy constructor and assignment, and these never store the source's pointer in the copy")
    R.rule("C05.init", "every constructor gives each member the destructor frees a value, and frees none before that")
    R.rule("C05.never", "a raw pointer member that receives an allocation of its class is freed by the class")
    R.rule("C05.forms", "the form in which a member is allocated matches the form in which the destructor frees it")
    O = Own(P)
    nctor = 0
    frees = {}
    for f in P.F.values():
        for n in walk(f.get("b")):
            if n["k"] == "delete":
                for m in walk(n["e"]):
                    if m["k"] == "mem": frees.setdefault(f.get("cls"), set()).add(m["f"])
    dfrees = Own.dfrees
    for qn, flds in sorted(own.items()):
        c = P.C[qn]
        R.ob()
        anchor = c["qn"]
        for what, has in (("copy constructor", c.get("ucopy")), ("assignment operator", c.get("uassign"))):
            R.ob()
            if not has and any(x in ptr_fields(c) for x in flds) and used(P, qn, what):
                R.v("C05.three", next(f for f in P.F.values() if f.get("cls") == qn and f["name"].startswith("~")), c["l"], "%s implicit" % what, "%s frees %s in its destructor but has the implicit %s: two objects would free the same memory" % (qn, ", ".join(sorted(x for x in flds if x in ptr_fields(c))), what))
    for f in sorted(P.F.values(), key=lambda f: (f["file"], f["l"])):
        qn = f.get("cls"); c = P.C.get(qn)
        if c is None or not in_repo(f) or f.get("b") is None: continue
        flds = own.get(qn, {})
        raw = ptr_fields(c)
        isasg = f["name"] == "operator=" and f["p"] and qn.split("::")[-1] in f["p"][0]["ct"]
        if not flds or not (f.get("ctor") or isasg): continue
        nctor += 1
        h = H(P, R, f, O, {}, lambda *a: None)
        ip = Interp(P, h)
        seen = {}
        olddel = h.delete
        def dele(ip, st, n, v, f=f):
            if f.get("ctor") and v[0] == "i" and v[1][0] == "f" and v[1][1] == ("this",) and v[1][2] in raw and not v[2:] and v[1][2] not in {i["f"] for i in f.get("inits", ()) if i.get("f") and i.get("e") is not None}:
                R.v("C05.init", f, n.get("l"), "frees uninitialised %s" % v[1][2], "the constructor frees member %s before it has a value" % v[1][2], st.path())
            return olddel(ip, st, n, v)
        h.delete = dele
        res = ip.run(f, St())
        R.ran(ip)
        src = f["p"][0] if f["p"] else None
        given = {i["f"] for i in f.get("inits", ()) if i.get("f") and i.get("e") is not None}
        deleg = f.get("ctor") and any(i.get("e") is not None and i["e"].get("k") == "ctor" and i["e"].get("cls") == qn and not i.get("f") for i in f.get("inits", ()))
        if f.get("copyctor") or isasg or (src and f.get("ctor") and qn.split("::")[-1] in src["ct"] and "&" in src["ct"]):
            for x, form in flds.items():
                if form != "elems": continue
                R.ob()
                if not renewed(P, f, x): R.v("C05.three", f, f["l"], "%s elements shared" % x, "the elements of %s, which the destructor frees, are not duplicated by the copy" % x)
        for kind, st, val in res:
            if kind != "ret": continue
            for x, form in flds.items():
                if x not in raw: continue
                v = st.env.get(("f", ("this",), x))
                if f.get("ctor") and not deleg and x not in given:
                    R.ob()
                    if v is None or v == ("i", ("f", ("this",), x)):
                        if ("set", x) not in st.ts and not any(k == ("F", x) for k in st.ep):
                            R.v("C05.init", f, f["l"], "%s uninitialised" % x, "constructor of %s leaves %s, which the destructor frees, without a value" % (qn, x), st.path())
                if v is None: continue
                R.ob()
                r = root(v)
                if r[0] == "i" and r[1][0] == "f" and r[1][1] != ("this",) and (f.get("copyctor") or isasg) and mentions(r[1][1], lambda y: y[0] in ("p", "v") or y[0] == "obj") and ip.truth(st, v) is not False:
                    R.v("C05.three", f, f["l"], "%s shared" % x, "the copy stores the source's own %s pointer, which both destructors free" % x, st.path())
                t = h.tok(v)
                if t is not None and t in h.form and form in ("one", "arr") and h.form[t] != (form == "arr"):
                    R.v("C05.forms", f, h.where.get(t), "%s form" % x, "%s is allocated with %s and freed by the destructor with %s" % (x, "new[]" if h.form[t] else "new", "delete[]" if form == "arr" else "delete"), st.path())
    # allocations stored in members
    nst = 0
    for f in sorted(P.F.values(), key=lambda f: (f["file"], f["l"])):
        qn = f.get("cls"); c = P.C.get(qn)
        if c is None or not in_repo(f) or f.get("b") is None: continue
        raw = ptr_fields(c)
        allf = dict(raw)
        for b in P.bases(qn):
            if b in P.C and P.C[b].get("inrepo"): allf.update(ptr_fields(P.C[b]))
        sites = []
        for n in list(walk(f["b"])):
            if n["k"] == "assign" and n.get("op") == "=":
                a = peel(n["a"])
                if a is not None and a["k"] == "mem" and peel(a["b"]).get("k") == "this" and a["f"] in allf: sites.append((a["f"], n["b"], n.get("l")))
        for i in f.get("inits", ()):
            if i.get("f") in allf and i.get("e") is not None: sites.append((i["f"], i["e"], f["l"]))
        for x, e, l in sites:
            for y in alts(e):
                arr = None
                if y["k"] == "new" and not y.get("placement"): arr = bool(y.get("arr"))
                elif y["k"] == "call" and y.get("name") in ARRAY_MAKERS: arr = True
                elif y["k"] == "call" and (y.get("name") in OBJECT_MAKERS): arr = False
                if arr is None: continue
                nst += 1; R.ob()
                cl = [qn] + P.bases(qn) + sorted(P.derived(qn))
                if not any(x in dfrees.get(k, ()) for k in cl):
                    R.v("C05.never", f, l, "%s never freed" % x, "%s stores an allocation in member %s, which no destructor of the class frees" % (f["name"], x))
                for k in cl:
                    d = own.get(k, {}).get(x)
                    if d in ("one", "arr") and (d == "arr") != arr:
                        R.v("C05.forms", f, l, "%s form" % x, "%s is allocated with %s here and freed by the destructor with %s" % (x, "new[]" if arr else "new", "delete[]" if d == "arr" else "delete"))
    R.count("allocations stored in members", nst)
    R.atleast("constructors and assignments of owning classes", nctor, 60)

def renewed(P, f, x):
    """f leaves member x empty, or stores fresh elements in it."""
    src = f["p"][0]["name"]
    bodies = [f] + [g for c in P.calls(f) for g in P.targets(c) if g.get("cls") == f.get("cls") and not g.get("ctor") and g.get("b") is not None]
    takes = any(i.get("f") == x and i.get("e") is not None and any(y["k"] == "mem" and y["f"] == x for y in walk(i["e"])) for i in f.get("inits", ()))
    fresh = False
    def is_fresh(e, g):
        for y in alts(e):
            if y["k"] == "new" or (y["k"] == "call" and y.get("name") in OBJECT_MAKERS) : return True
            if y["k"] == "var":
                for n in walk(g["b"]):
                    if n["k"] == "decl" and any(v.get("id") == y.get("id") and v.get("e") is not None and is_fresh(v["e"], g) for v in n["v"]): return True
                    if n["k"] == "assign" and peel(n["a"]) is not None and peel(n["a"]).get("k") == "var" and peel(n["a"]).get("id") == y.get("id") and is_fresh(n["b"], g): return True
        return False
    def about(e, g):
        for y in walk(e):
            if y["k"] == "mem" and y["f"] == x: return True
            if y["k"] == "var":
                for n in walk(g["b"]):
                    if n["k"] == "decl" and any(v.get("id") == y.get("id") and v.get("e") is not None and any(z["k"] == "mem" and z["f"] == x for z in walk(v["e"])) for v in n["v"]): return True
        return False
    for g in bodies:
        for n in walk(g["b"]):
            if n["k"] == "assign" and about(n["a"], g):
                takes = True
                if is_fresh(n["b"], g): fresh = True
            if n["k"] == "call" and n.get("obj") is not None and n.get("name") in ("push_back", "insert", "push_front", "operator=", "assign", "resize") and about(n["obj"], g):
                takes = True
                if any(is_fresh(a, g) or any(z["k"] == "new" or (z["k"] == "call" and z.get("name") in OBJECT_MAKERS) for z in walk(a)) for a in n.get("a", ())): fresh = True
    return fresh or not takes

def used(P, qn, what):
    """Some code makes the compiler generate and call this implicit member."""
    for f in P.F.values():
        for n in P.calls(f):
            if what[0] == "c" and n["k"] == "ctor" and n.get("cls") == qn and n.get("copy"): return True
            if what[0] == "a" and n["k"] == "call" and (n.get("op") == "=" or n.get("name") == "operator=") and n.get("cls", "") == qn: return True
    return False

def alts(e):
    e = peel(e)
    if e is None: return []
    if e["k"] == "cond": return alts(e["t"]) + alts(e["e"])
    if e["k"] == "cast": return alts(e["e"])
    return [e]

def run(P, R):
    H.makers = fresh_makers(P)
    Own.dfrees = dtor_frees(P)
    R.count("functions returning fresh allocations", len(H.makers))
    own = owned_fields(P, R)
    R.count("classes with owning members", len(own))
    check_paths(P, R, own)
    check_classes(P, R, own)
