"""Search nodes are linear tokens: kept by the tree or handed out, exactly once."""
from .common import *
NDEBUG = False      # the asserts state the calling protocol of the tree search
BASE = "CbcTree"
THIS = ("this",)

def holders(P, c):
    slots = [f["f"] for f in P.cls(c)["fields"] if f["ct"].replace(" ", "") == "CbcNode*"]
    lists = [f["f"] for f in P.cls(c)["fields"] if "CbcNode *>" in f["ct"]]
    return slots, lists

def mirror(P, c):
    """int field counted up and down next to the list operations."""
    up, dn = set(), set()
    for f in P.F.values():
        if f.get("cls") != c: continue
        for n in walk(f.get("b")):
            if n["k"] == "un" and n["op"] in ("++", "--") and n["e"]["k"] == "mem": (up if n["op"] == "++" else dn).add(n["e"]["f"])
            elif n["k"] == "assign" and n["op"] in ("+=", "-=") and n["a"]["k"] == "mem": (up if n["op"] == "+=" else dn).add(n["a"]["f"])
            elif n["k"] == "assign" and n["op"] == "=" and n["a"]["k"] == "mem" and n["b"]["k"] == "bin" and n["b"]["op"] in "+-" and n["b"]["a"].get("f") == n["a"]["f"]:
                (up if n["b"]["op"] == "+" else dn).add(n["a"]["f"])
    r = sorted(up & dn)
    return r[0] if r else None

class Tok(EvHooks):
    def __init__(self, P, R, c, f):
        self.c = c; self.R = R; self.f = f
        self.slots, self.lists = holders(P, c)
        self.mir = mirror(P, c) if self.lists else None
        EvHooks.__init__(self, P, relevant=self.rel)
        self.guards = None
    slice = False
    def rel(self, n):
        if n["k"] == "call" and (n.get("cls") == BASE or (n.get("obj") or {}).get("f") in self.lists): return True
        return n["k"] == "mem" and (n["f"] in self.slots or n["f"] in self.lists or n["f"] == self.mir)
    def want_inline(self, ip, fn, call):
        if fn.get("cls") == self.c: return True
        return EvHooks.want_inline(self, ip, fn, call)
    def viol(self, rule, n, con, msg, st): self.R.v(rule, self.f, n.get("l", self.f["l"]), con, msg, st.path())
    def lsize(self, ip, st): return ip.read(st, ("f", THIS, self.mir)) if self.mir else None
    def bump(self, st, k, d=1): st.ts[k] = st.ts.get(k, 0) + d
    def bal(self, st, d): st.ts["bal"] = max(-3, min(3, st.ts.get("bal", 0) + d))
    def call(self, ip, st, n, o, a):
        nm, cls = n.get("name"), n.get("cls", "")
        a = tuple(ip.val_of(st, x) for x in a)
        if cls == BASE and o == THIS and not self.P.target(n):
            if nm == "push":
                if ip.truth(st, a[0]) is not True:
                    self.viol("C16.null", n, "push of absent node", "a node that may be absent (null) is put on the heap", st)
                self.bump(st, ("heap", a[0])); return [(st, UNK)]
            if nm == "bestNode":
                v = ("hn", ip.site(n)); self.settle(ip, st, n, v)
                st.ts[("tok", v)] = 1
                if a[0] != ("p", self.cut): self.viol("C16.cutoff", n, "cutoff changed", "the heap is asked for its best node with a cutoff other than the one given", st)
                return [(st, v)]
            if nm == "top": return [(st, ("heaptop",))]
            if nm == "pop": self.bump(st, "heappop"); return [(st, UNK)]
            if nm == "empty":
                if "hempty" in st.ts: return [(st, C(st.ts["hempty"]))]
                out = []
                for b in (1, 0):
                    q = st.copy(); q.ts["hempty"] = b; out.append((q, C(b)))
                return out
            if nm == "cleanTree": self.at_clean(ip, st, n, a); return [(st, UNK)]
            if nm == "getBestPossibleObjective": st.ts["heapcov"] = 1; return [(st, ("heapbest",))]
        ob = peel(n["obj"]) if n.get("obj") is not None else None
        if ob is not None and ob["k"] == "mem" and ob["f"] in self.lists and o == ("obj", ("f", THIS, ob["f"])):
            if nm == "empty" and self.mir: return [(st, cmpval("==", self.lsize(ip, st), ZERO))]
            if nm == "size" and self.mir: return [(st, self.lsize(ip, st))]
            if nm in ("front", "back"):
                if (nm, "peek") in st.ts: return [(st, st.ts[(nm, "peek")])]
                v = ("tmp", "node", nm, ip.site(n))
                self.settle(ip, st, n, v)
                st.ts[(nm, "peek")] = v; return [(st, v)]
            if nm in ("pop_front", "pop_back"):
                e = nm[4:]
                v = st.ts.pop((e, "peek"), None)
                if v is None: v = ("tmp", "node", e, ip.site(n)); self.settle(ip, st, n, v)
                st.ts.pop(("front" if e == "back" else "back", "peek"), None)
                st.ts[("tok", v)] = 1; st.ts["popped"] = e; self.bal(st, -1)
                return [(st, UNK)]
            if nm in ("push_front", "push_back"):
                if ip.truth(st, a[0]) is not True: self.viol("C16.null", n, "push of absent node", "a node that may be absent (null) is put on the list", st)
                self.bump(st, ("list", a[0])); self.bal(st, 1)
                for e in ("front", "back"): st.ts.pop((e, "peek"), None)
                return [(st, UNK)]
            if nm in ("clear", "erase", "remove", "resize", "swap"):
                self.viol("C16.linear", n, "list " + nm, "nodes are dropped from the list wholesale", st)
        # use of a node that may be absent
        if o is not None and o[0] == "hn" and ip.truth(st, o) is not True:
            self.viol("C16.null", n, "use of absent node", "the heap may have no node to give; the result is used without a test", st)
        return None
    def settle(self, ip, st, n, v):
        """The same program point produces a new token: the old one must be placed."""
        if ("tok", v) in st.ts:
            c = st.ts.get(("heap", v), 0) + st.ts.get(("list", v), 0)
            if c != 1 and v[0] != "hn": self.viol("C16.linear", n, "node dropped in loop", "a node taken from the list is %s before the next one is taken" % ("lost" if c == 0 else "stored twice"), st)
            for k in (("tok", v), ("heap", v), ("list", v)): st.ts.pop(k, None)
    def assign(self, ip, st, n, loc, val):
        if loc[0] == "f" and loc[2] == self.mir and loc[1] == THIS:
            old = ip.read(st, loc)
            d = [k for k in (-2, -1, 0, 1, 2) if arith_eq(val, old, k)]
            if d: self.bal(st, -d[0])
            elif val == ZERO and ip.truth(st, old) is not False: st.ts["bal"] = 3
    def branch(self, ip, st, n, truth):
        if not self.mir: return
        z = self.lsize(ip, st)
        if st.facts.get(("lt", ZERO, z)) is False and ip.known(st, ("nz", z)) is None: st.facts[("nz", z)] = False
        self.cover(ip, st)
    def cover(self, ip, st): pass
    def at_clean(self, ip, st, n, a):
        st.ts["cleaned"] = 1
        for s in self.slots:
            if ip.truth(st, ip.read(st, ("f", THIS, s))) is not False:
                self.viol("C16.prune", n, "pruning with " + s, "the tree is pruned while %s may still hold a node that is not on the heap" % s, st)
        if self.mir and ip.truth(st, self.lsize(ip, st)) is not False:
            self.viol("C16.prune", n, "pruning with list", "the tree is pruned while the dive list may still hold nodes", st)
        if a[1] != ("p", self.cut): self.viol("C16.cutoff", n, "pruning cutoff changed", "the tree is pruned with a cutoff other than the one given", st)
        self.guards = {k[2] for k, v in st.env.items() if k[0] == "f" and k[1] == THIS and v == ONE}

from interp import arith
def arith_eq(val, old, k): return arith("+" if k >= 0 else "-", old, C(abs(k))) == val

def slot0(s): return ("i", ("f", THIS, s))

def start(h, f, guards=()):
    st = St()
    for g in guards: st.env[("f", THIS, g)] = ZERO
    return st

def check_linear(P, R, ip, h, f, rs, extra=()):
    for k, s, v in rs:
        if k != "ret": continue
        toks = {slot0(x): x for x in h.slots}
        for t in extra: toks[t] = "the node given"
        for key in s.ts:
            if isinstance(key, tuple) and key[0] == "tok": toks[key[1]] = "a node taken from the heap" if key[1][0] == "hn" else "a node taken from the list"
        place = {}
        for x in h.slots: place.setdefault(ip.read(s, ("f", THIS, x)), []).append(x)
        for key, c in s.ts.items():
            if isinstance(key, tuple) and key[0] in ("heap", "list"): place.setdefault(key[1], []).extend([key[0]] * c)
        if f["name"] != "top": place.setdefault(v, []).append("returned")
        for t, what in toks.items():
            R.ob()
            if ip.truth(s, t) is False: continue
            w = place.get(t, [])
            if f["name"] == "pop" and not w:
                s.ts["removed"] = s.ts.get("removed", ()) + ((what,) if what in h.slots else (s.ts.get("popped"),)); continue
            if f["name"] == "endSearch": continue
            if len(w) == 0: R.v("C16.linear", f, f["l"], "%s lost" % what, "%s can be neither kept nor returned: the node is lost" % what, s.path())
            elif len(w) > 1: R.v("C16.linear", f, f["l"], "%s duplicated" % what, "%s ends up in %s: the node is duplicated" % (what, " and ".join(w)), s.path())
        for t, w in place.items():
            # slots may hold only known nodes
            if t in toks or ip.truth(s, t) is False or t == UNK: continue
            if "returned" in w and f["name"] not in ("bestNode", "top"): continue
            if t[0] in ("heaptop", "heapbest", "lv", "join"): continue
            if t[0] == "tmp" and f["name"] == "top": continue
            if t[0] == "tmp": R.v("C16.linear", f, f["l"], "node in two places", "a node still on the list is also %s" % ", ".join(w), s.path())
        R.ob()
        if s.ts.get("bal"): R.v("C16.count", f, f["l"], "list size", "the recorded number of nodes on the list differs from the list by %+d" % -s.ts["bal"], s.path())

class Best(Tok):
    """Minimum over every kept node."""
    def __init__(self, P, R, c, f):
        Tok.__init__(self, P, R, c, f)
        self.acc = None
        for n in walk(f["b"]):
            if n["k"] == "return" and n.get("e") is not None and n["e"]["k"] == "var": self.acc = n["e"]["id"]
        self.loops = set()
    def track(self, ip, st, loc, val, old):
        if old is not None:
            ok = st.facts.get(("lt", val, old)) or st.facts.get(("lt", old, val)) is False or is_min(val, old)
            if not ok: 
                for k in [k for k in st.ts if isinstance(k, tuple) and k[0] in ("cov", "icov")]: del st.ts[k]
                st.ts.pop("heapcov", None)
        for o in objs_of(val): st.ts[("cov", o)] = 1; st.ts["icov"] = 1
        if val == ("heapbest",) or is_min(val, ("heapbest",)): st.ts["heapcov"] = 1
    def decl(self, ip, st, v, loc, val):
        if v["id"] == self.acc: self.track(ip, st, loc, val, None)
    def assign(self, ip, st, n, loc, val):
        Tok.assign(self, ip, st, n, loc, val)
        if loc[0] == "v" and loc[2] == self.acc:
            old = ip.read(st, loc)
            self.track(ip, st, loc, val, None if old[0] == "uninit" else old)
    def branch(self, ip, st, n, truth):
        Tok.branch(self, ip, st, n, truth)
        cur = [v for k, v in st.env.items() if k[0] == "v" and k[2] == self.acc]
        if not cur: return
        A = cur[0]
        for a, b in list(st.facts.items()):
            if a[0] == "lt" and (not b and a[2] == A): other = a[1]
            elif a[0] == "lt" and b and a[1] == A: other = a[2]
            else: continue
            for o in objs_of(other):
                if ("cov", o) not in st.ts: st.ts[("cov", o)] = 1; st.ts["icov"] = 1
            if other == ("heapbest",): st.ts["heapcov"] = 1
    def leaves(self, n):
        """The loop can be left before its last element."""
        def go(m, own):
            if m["k"] == "return" or m["k"] == "break" and own: return True
            return any(go(c, own and c["k"] not in ("for", "while", "do", "rfor", "switch")) for c in kids(m))
        return n.get("b") is not None and go(n["b"], n["b"]["k"] not in ("for", "while", "do", "rfor", "switch"))
    def iter_end(self, ip, st, n):
        kinds = [x["f"] for x in walk(n) if x["k"] == "mem" and (x["f"] in self.lists or x["f"] == "nodes_")]
        if not kinds: return
        if self.leaves(n): return           # the elements after that are not looked at
        self.loops.add(kinds[0])
        nul = any(a[0] == "nz" and not b and (mentions(a[1], lambda x: x[0] in ("e", "lv") or (x[0] == "pure" and x[1].endswith("operator*")))) for a, b in st.facts.items())
        if not st.ts.pop("icov", None) and not nul:
            self.viol("C16.bound", n, "%s element skipped" % kinds[0], "a node kept in %s can leave the best bound above its own value" % kinds[0], st)
        for k in [k for k in st.ts if isinstance(k, tuple) and k[0] == "cov" and k[1] not in [slot0(x) for x in self.slots]]: del st.ts[k]
        init = n.get("init")
        if n["k"] == "for" and init is not None and init["k"] == "decl":
            for v in init["v"]:
                e = v.get("e")
                if e is not None and e["k"] == "int" and e["v"] != 0:
                    self.viol("C16.bound", n, "%s loop start" % kinds[0], "the scan of %s does not start at its first node" % kinds[0], st)
        st.ts[("loop", kinds[0])] = 1

def objs_of(v):
    if v[0] == "pure" and v[1] == "CbcNode::objectiveValue": return [v[2][0]]
    if v[0] == "pure" and v[1].split("::")[-1] in ("min", "CoinMin") : return [o for x in v[3] for o in objs_of(x)]
    return []
def is_min(v, old): return v[0] == "pure" and v[1].split("::")[-1] in ("min", "CoinMin") and old in v[3]

def linform(ip, st, v, sign=1, out=None):
    out = {} if out is None else out
    if num(v): out[1] = out.get(1, 0) + sign * v[1]
    elif v[0] == "op" and v[1] in ("+", "-") and len(v) == 4:
        linform(ip, st, v[2], sign, out); linform(ip, st, v[3], sign if v[1] == "+" else -sign, out)
    elif v[0] == "b" and ip.truth(st, v) is not None: out[1] = out.get(1, 0) + sign * int(ip.truth(st, v))
    else: out[v] = out.get(v, 0) + sign
    return {k: c for k, c in out.items() if c}

def run(P, R):
    R.rule("C16.linear", "path-sensitive linear typestate: on every exit of push/bestNode/pop/setters each node (the one given, those in the private slots, those taken from list or heap) is in exactly one place")
    R.rule("C16.null", "only nodes known to exist are put on the heap or list, and the heap's answer is tested before use")
    R.rule("C16.prune", "at the call that prunes the heap no private slot or list can hold a node, the tree is in its heap-only mode, and that mode ends with the call")
    R.rule("C16.cutoff", "cutoffs are passed on unchanged")
    R.rule("C16.count", "recorded list size moves in step with the list; the node count adds heap, slots and list")
    R.rule("C16.empty", "empty() is true exactly when heap, slots and list are all empty")
    R.rule("C16.bound", "the best bound is at most the bound of every node in slots, list and heap")
    R.rule("C16.order", "pop removes the node top returns under the same conditions")
    R.rule("C16.override", "the tree operations override those of the base class that the search calls")
    R.assumptions.append("asserts state the calling protocol of the tree search (NDEBUG variant not analysed)")
    cs = sorted(c for c in P.derived(BASE) if P.C[c].get("inrepo", True))
    R.atleast("tree_classes", len(cs), 3)
    base = {m["name"]: m for m in P.cls(BASE)["methods"] if m.get("virtual")}
    for c in cs:
        slots, lists = holders(P, c)
        if not slots and not lists: continue
        for m in P.C[c]["methods"]:
            if m["name"] in base and not m.get("dtor") and not m.get("ctor"):
                R.ob()
                if not m.get("over") and len(m["pn"]) == len(base[m["name"]]["pn"]):
                    R.v("C16.override", m["fn"], m["l"], "does not override", "%s::%s has another signature than the base class operation (const), so the search never calls it and the nodes kept outside the heap are not counted" % (c.split("::")[-1], m["name"]))
        one(P, R, c, slots, lists)

def get(P, c, name):
    r = P.byqn.get("%s::%s" % (c, name))
    return r[0] if r else None

def one(P, R, c, slots, lists):
    need = ("push", "pop", "top", "bestNode", "empty", "size", "cleanTree", "getBestPossibleObjective")
    fs = {}
    for n in need:
        f = get(P, c, n)
        R.ob()
        if f is None:
            R.v("C16.override", c + "::" + n, 0, "missing", "%s keeps nodes outside the heap but does not override %s" % (c, n)); continue
        fs[n] = f
    def go(name, cls=Tok, st=None):
        f = fs[name]
        h = cls(P, R, c, f)
        h.cut = next((p["name"] for p in f["p"] if p["ct"] == "double"), None)
        ip = Interp(P, h)
        st = st or St()
        for p in f["p"]:
            if "CbcNode" in p["ct"]: st.facts[("nz", ("p", p["name"]))] = True
        rs = ip.run(f, st); R.ran(ip)
        return h, ip, f, rs
    guards = set()
    if "cleanTree" in fs:
        h, ip, f, rs = go("cleanTree")
        check_linear(P, R, ip, h, f, [r for r in rs])
        guards = set(h.guards or ())
        R.ob()
        if not guards: R.v("C16.prune", f, f["l"], "no heap-only mode", "while the heap is pruned the tree is not in its heap-only mode: nodes re-inserted by the pruning go to the private slots")
        for k, s, v in rs:
            R.ob()
            if k == "ret" and not s.ts.get("cleaned"): R.v("C16.prune", f, f["l"], "not pruned", "cleanTree can return without pruning the heap", s.path())
            left = {g for g in guards if s.env.get(("f", THIS, g)) != ZERO}
            if k == "ret" and left: R.v("C16.prune", f, f["l"], "heap-only mode left on", "the heap-only mode (%s) stays on after pruning" % ",".join(left), s.path())
    if "push" in fs:
        h, ip, f, rs = go("push")
        x = ("p", f["p"][0]["name"])
        check_linear(P, R, ip, h, f, rs, (x,))
        for g in guards:
            st = St(); st.env[("f", THIS, g)] = ONE
            h, ip, f, rs = go("push", st=st)
            for k, s, v in rs:
                R.ob()
                if k == "ret" and s.ts.get(("heap", x), 0) != 1: R.v("C16.prune", f, f["l"], "not to heap while pruning", "in heap-only mode a node is not put on the heap", s.path())
    if "bestNode" in fs:
        h, ip, f, rs = go("bestNode")
        check_linear(P, R, ip, h, f, rs)
    rows = {}
    for nm in ("top", "pop"):
        if nm in fs:
            h, ip, f, rs = go(nm)
            check_linear(P, R, ip, h, f, rs)
            rows[nm] = (ip, h, f, rs)
    if len(rows) == 2:
        def outcome(nm, h, s, v):
            if nm == "top":
                if v[0] == "tmp": return v[2]
                if v == ("heaptop",): return "heap"
                for x in h.slots:
                    if v == slot0(x): return x
                return str(v[0])
            r = list(s.ts.get("removed", ()))
            if s.ts.get("heappop"): r.append("heap")
            return "+".join(map(str, r)) or "nothing"
        ipt, ht, ft, rt = rows["top"]; ipp, hp, fp, rp = rows["pop"]
        for k, s, v in rt:
            if k != "ret": continue
            for k2, s2, v2 in rp:
                if k2 != "ret": continue
                if any(ipp.known(s2, a) not in (None, b) for a, b in s.facts.items()): continue
                R.ob()
                a, b = outcome("top", ht, s, v), outcome("pop", hp, s2, v2)
                if b == "nothing" or "+" in b: R.v("C16.order", fp, fp["l"], "removes " + b, "pop removes %s instead of one node" % b, s2.path())
                elif a != b: R.v("C16.order", fp, fp["l"], "%s vs %s" % (a, b), "top returns the node in %s but pop removes the one in %s" % (a, b), s2.path())
    if "empty" in fs:
        h, ip, f, rs = go("empty")
        for k, s, v in rs:
            R.ob()
            t = ip.truth(s, v)
            parts = [("heap", None if "hempty" not in s.ts else not s.ts["hempty"])] + [(x, ip.truth(s, slot0(x))) for x in slots]
            if lists: parts.append(("list", ip.truth(s, h.lsize(ip, s)) if h.mir else None))
            if t is True and not all(p is False for _, p in parts):
                R.v("C16.empty", f, f["l"], "true with " + ",".join(x for x, p in parts if p is not False), "empty() can be true while %s holds a node" % ", ".join(x for x, p in parts if p is not False), s.path())
            if t is False and not any(p is True for _, p in parts):
                R.v("C16.empty", f, f["l"], "false without node", "empty() can be false without any node", s.path())
            if t is None: R.v("C16.empty", f, f["l"], "undetermined", "empty() does not depend on heap, slots and list alone", s.path())
    if "size" in fs:
        import itertools
        for combo in itertools.product((0, 1), repeat=len(slots)):
            st = St()
            for x, b in zip(slots, combo): st.env[("f", THIS, x)] = ("tmp", "node", x) if b else ZERO
            h, ip, f, rs = go("size", st=st)
            for k, s, v in rs:
                R.ob()
                lf = linform(ip, s, v)
                heap = [a for a in lf if a != 1 and mentions(a, lambda y: y[0] == "f" and y[2] == "nodes_") or (a != 1 and a[0] == "pure" and a[1] == "CbcTree::size")]
                want = sum(combo)
                ok = len(heap) == 1 and lf[heap[0]] == 1 and lf.get(1, 0) == want
                rest = [a for a in lf if a != 1 and a not in heap]
                if lists: ok = ok and len(rest) == len(lists) and all(lf[a] == 1 for a in rest) and (not h.mir or rest == [slot0(h.mir)])
                else: ok = ok and not rest
                if not ok: R.v("C16.count", f, f["l"], "size() with %s" % (combo,), "the node count does not add up heap, slots and list", s.path())
    if "getBestPossibleObjective" in fs:
        h, ip, f, rs = go("getBestPossibleObjective", Best)
        for k, s, v in rs:
            if k != "ret": continue
            for x in slots:
                R.ob()
                if ip.truth(s, slot0(x)) is False or ("cov", slot0(x)) in s.ts or slot0(x) in objs_of(v): continue
                R.v("C16.bound", f, f["l"], x + " not counted", "the best bound can be above that of the node in %s" % x, s.path())
            R.ob()
            if not (s.ts.get("heapcov") or ("nodes_" in h.loops) or s.ts.get("hempty") == 1): R.v("C16.bound", f, f["l"], "heap not counted", "the best bound does not take the heap into account", s.path())
            for x in lists:
                R.ob()
                if x not in h.loops and not (h.mir and ip.truth(s, h.lsize(ip, s)) is False): R.v("C16.bound", f, f["l"], x + " not counted", "the best bound does not take %s into account" % x, s.path())
    # any other member that touches the holders
    for f in sorted(P.F.values(), key=lambda f: f["key"]):
        if f.get("cls") != c or f["name"] in need or f.get("ctor") or f.get("dtor") or f["name"].startswith("operator") or f["name"] in ("endSearch",): continue
        if not any(n["k"] == "mem" and (n["f"] in slots or n["f"] in lists) for g in [f] for n in walk(g.get("b"))) and not any(P.target(x) and P.target(x).get("cls") == c for x in P.calls(f)): continue
        h = Tok(P, R, c, f); h.cut = None
        ip = Interp(P, h); rs = ip.run(f); R.ran(ip)
        check_linear(P, R, ip, h, f, rs)
    R.sample("%s: slots %s lists %s guard %s" % (c, slots, lists, sorted(guards)))
