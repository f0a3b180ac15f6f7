"""The resolved program: functions, classes, hierarchy, call graph, effects."""
import os
from collections import defaultdict
from extract import extract, Broken, REPO

CHILD_KEYS = ("init", "cv", "c", "v", "r", "t", "e", "inc", "b", "s", "obj", "cal", "a", "i", "n", "h", "ch", "p", "v2", "d")

def kids(n):
    """Direct child nodes in source order (best effort)."""
    out = []
    if n.get("k") == "decl":
        for v in n["v"]:
            if v.get("e"): out.append(v["e"])
        return out
    for k in CHILD_KEYS:
        v = n.get(k)
        if isinstance(v, dict) and "k" in v:
            out.append(v)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and "k" in x:
                    out.append(x)
    return out

def walk(n):
    if n is None: return
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(kids(x)))

SMART = ("Ipopt::SmartPtr", "Coin::SmartPtr", "SmartPtr", "Ipopt::GetRawPtr", "Ipopt::ConstPtr", "Coin::GetRawPtr")

def peel(n):
    """Look through smart-pointer plumbing and explicit casts."""
    while n is not None:
        k = n.get("k")
        if k == "call":
            fn = n.get("fn", "")
            if n.get("op") in ("->", "*") and "SmartPtr" in fn:
                n = n["obj"]; continue
            if n.get("name") in ("GetRawPtr", "ConstPtr") and n.get("a"):
                n = n["a"][0]; continue
            if "SmartPtr" in fn and n.get("name", "").startswith("operator ") and n.get("obj"):
                n = n["obj"]; continue
            if n.get("name") == "operator()" and "SimpleReferencedPtr" in fn:
                n = n["obj"]; continue
        if k == "cast": n = n["e"]; continue
        if k == "ctor" and len(n.get("a", [])) == 1 and ("SmartPtr" in n.get("cls", "") or n.get("copy") or n.get("move")):
            n = n["a"][0]; continue
        return n
    return n

def txt(n, d=0):
    """Readable, layout-independent rendering of an expression."""
    if n is None: return ""
    if d > 12: return "..."
    k = n.get("k")
    t = lambda x: txt(x, d + 1)
    if k in ("int", "float"): return str(n["v"])
    if k == "bool": return "true" if n["v"] else "false"
    if k == "str": return '"%s"' % n["v"]
    if k == "null": return "NULL"
    if k == "this": return "this"
    if k == "var": return n["name"]
    if k == "enum": return n["name"]
    if k == "mem":
        b = t(n["b"])
        return n["f"] if b == "this" else b + "." + n["f"]
    if k == "call":
        args = ", ".join(t(a) for a in n.get("a", []) if not a.get("dflt"))
        if n.get("op") and n.get("obj") is not None:
            if n["op"] == "[]": return "%s[%s]" % (t(n["obj"]), args)
            if n["op"] == "->" or (n["op"] == "*" and not args): return t(n["obj"])
            if n["op"] == "()": return "%s(%s)" % (t(n["obj"]), args)
            return "%s %s %s" % (t(n["obj"]), n["op"], args)
        if n.get("op") and len(n.get("a", [])) == 2:
            return "%s %s %s" % (t(n["a"][0]), n["op"], t(n["a"][1]))
        if n.get("obj") is not None:
            o = t(n["obj"])
            return (n.get("name", "?") if o == "this" else o + "." + n.get("name", "?")) + "(" + args + ")"
        return (n.get("name") or t(n.get("cal"))) + "(" + args + ")"
    if k == "ctor":
        a = [x for x in n.get("a", []) if not x.get("dflt")]
        if len(a) == 1 and (n.get("copy") or n.get("move") or "basic_string" in n.get("fn", "")): return t(a[0])
        return n.get("cls", "?").split("::")[-1] + "(" + ", ".join(t(x) for x in a) + ")"
    if k == "new": return "new %s%s" % (n["t"], "[%s]" % t(n.get("n")) if n.get("arr") else "")
    if k == "delete": return "delete%s %s" % ("[]" if n.get("arr") else "", t(n["e"]))
    if k == "un": return (t(n["e"]) + n["op"]) if n.get("post") else n["op"] + t(n["e"])
    if k in ("bin", "assign"): return "%s %s %s" % (t(n["a"]), n["op"], t(n["b"]))
    if k == "cond": return "%s ? %s : %s" % (t(n["c"]), t(n["t"]), t(n["e"]))
    if k == "idx": return "%s[%s]" % (t(n["b"]), t(n["i"]))
    if k == "cast": return t(n["e"])
    if k == "throw": return "throw " + t(n.get("e"))
    if k == "zero": return "0"
    if k == "fnref": return n.get("name", "?")
    if k == "return": return "return " + t(n.get("e"))
    return "<%s>" % k

class Program:
    def __init__(self, facts):
        self.F = facts["F"]; self.C = facts["C"]; self.E = facts["E"]; self.G = facts["G"]
        self.units = facts.get("units", [])
        self.byqn = defaultdict(list)
        for k, f in self.F.items():
            f["key"] = k
            self.byqn[f["fn"]].append(f)
        self.over = defaultdict(set)   # base mangled -> overriding mangled (transitive)
        for f in self.F.values():
            for o in f.get("over", ()):
                self.over[o].add(f["m"])
        for c in self.C.values():
            for m in c["methods"]:
                for o in m.get("over", ()):
                    self.over[o].add(m["m"])
        self._mods = {}
        self._calls = {}
        self.sub = defaultdict(set)
        for c in self.C.values():
            for b in c["bases"]:
                self.sub[b].add(c["qn"])

    @classmethod
    def load(cls, extra=()):
        return cls(extract(extra))

    # -- lookup ----------------------------------------------------------
    def fns(self, qn):
        """Definitions of a qualified name; an anchor that has vanished is an
        analysis failure, not a pass."""
        r = self.byqn.get(qn)
        if not r:
            raise Broken("anchor function %s has no definition any more" % qn)
        return r

    def fn(self, qn, nparams=None, pred=None):
        r = self.fns(qn)
        if nparams is not None: r = [f for f in r if len(f["p"]) == nparams]
        if pred: r = [f for f in r if pred(f)]
        if not r: raise Broken("anchor function %s (expected overload) not found" % qn)
        return r[0]

    def cls(self, qn):
        if qn not in self.C: raise Broken("anchor class %s not found" % qn)
        return self.C[qn]

    def enum(self, qn):
        if qn not in self.E: raise Broken("anchor enum %s not found" % qn)
        return {v["name"]: v["v"] for v in self.E[qn]["v"]}

    def bases(self, qn):
        """All ancestors, nearest first."""
        out, q = [], [qn]
        while q:
            c = self.C.get(q.pop(0))
            if not c: continue
            for b in c["bases"]:
                if b not in out:
                    out.append(b); q.append(b)
        return out

    def derived(self, qn):
        out, q = set(), [qn]
        while q:
            for s in self.sub.get(q.pop(), ()):
                if s not in out:
                    out.add(s); q.append(s)
        return out

    def is_a(self, qn, base):
        return qn == base or base in self.bases(qn)

    def target(self, call):
        """Statically known repo definition of a call (None if unknown)."""
        return self.F.get(call.get("m"))

    def targets(self, call):
        """All repo definitions a call may reach (class hierarchy analysis)."""
        m = call.get("m")
        out = []
        if m in self.F: out.append(self.F[m])
        if call.get("virt"):
            for o in sorted(self.over.get(m, ())):
                if o in self.F: out.append(self.F[o])
        return out

    # -- effects -----------------------------------------------------------
    def calls(self, f):
        k = f["key"]
        if k not in self._calls:
            c = []
            for r in [f.get("b")] + [i.get("e") for i in f.get("inits", ())]:
                if r:
                    for n in walk(r):
                        if n["k"] in ("call", "ctor"): c.append(n)
            self._calls[k] = c
        return self._calls[k]

    def direct_mods(self, f):
        """Fields (by name) assigned directly in a function body, on any object."""
        k = ("dm", f["key"])
        if k in self._mods: return self._mods[k]
        s = set()
        for n in walk(f.get("b")):
            lv = None
            if n["k"] == "assign": lv = n["a"]
            elif n["k"] == "un" and n["op"] in ("++", "--"): lv = n["e"]
            elif n["k"] == "call" and n.get("op") in ("=", "+=", "-=") and n.get("obj"): lv = n["obj"]
            elif n["k"] in ("call", "ctor"):
                for a, h in zip(n.get("a", []), n.get("how", "")):
                    x = a
                    if h == "r" or (h == "p" and x.get("k") == "un" and x.get("op") == "&"):
                        if x.get("k") == "un": x = x["e"]
                        if x.get("k") == "mem": s.add(x["f"])
                o = n.get("obj")
                if o is not None and not n.get("cm"):
                    o = peel(o)
                    if o is not None and o.get("k") == "mem": s.add(o["f"] + "*")
            if lv is not None:
                lv = peel(lv)
                star = ""
                while lv is not None and lv["k"] in ("idx", "un", "call"):
                    star = "*"
                    lv = peel(lv.get("b") or lv.get("e") or lv.get("obj"))
                if lv is not None and lv["k"] == "mem": s.add(lv["f"] + star)
        self._mods[k] = s
        return s

    def repo_fields(self):
        if not hasattr(self, "_rf"): self._rf = {x["f"] for c in self.C.values() if c.get("inrepo") for x in c["fields"]}
        return self._rf

    def mods(self, f, depth=0, seen=None):
        """Transitive field-modification summary (names)."""
        k = ("m", f["key"])
        if k in self._mods: return self._mods[k]
        seen = set() if seen is None else seen
        todo, out = [f], set()
        while todo:
            g = todo.pop()
            if g["key"] in seen: continue
            seen.add(g["key"])
            out |= self.direct_mods(g)
            for c in self.calls(g):
                todo.extend(self.targets(c))
        self._mods[k] = out
        return out

    def reach(self, f, virt=True):
        """Functions reachable from f through the call graph."""
        seen, todo, order = set(), [f], []
        while todo:
            g = todo.pop()
            if g["key"] in seen: continue
            seen.add(g["key"]); order.append(g)
            for c in self.calls(g):
                todo.extend(self.targets(c) if virt else [x for x in [self.target(c)] if x])
        return order

def rel(f):
    p = f["file"] if isinstance(f, dict) else f
    return os.path.relpath(p, REPO) if p.startswith(REPO) else p
