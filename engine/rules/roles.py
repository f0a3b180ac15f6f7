"""Flow of bound arrays: which variable, field, parameter or result holds lower
and which upper bounds of columns or rows (flow-insensitive, whole program)."""
from model import walk, peel, txt

CL, CU, RL, RU = "lower bounds of columns", "upper bounds of columns", "lower bounds of rows", "upper bounds of rows"
SRC = {"getColLower": CL, "getColUpper": CU, "getRowLower": RL, "getRowUpper": RU}
FIELDS = {("OsiBranchingInformation", "lower_"): CL, ("OsiBranchingInformation", "upper_"): CU}
OSI = "OsiSolverInterface"
# (name, number of arguments) -> {argument: role}
SINK = {("setColLower", 1): {0: CL}, ("setColLower", 2): {1: CL}, ("setColUpper", 1): {0: CU}, ("setColUpper", 2): {1: CU}, ("setColBounds", 3): {1: CL, 2: CU},
        ("setRowLower", 2): {1: RL}, ("setRowUpper", 2): {1: RU}, ("setRowBounds", 3): {1: RL, 2: RU}, ("setRowLower", 1): {0: RL}, ("setRowUpper", 1): {0: RU},
        ("loadProblem", 6): {1: CL, 2: CU, 4: RL, 5: RU}, ("loadProblem", 10): {5: CL, 6: CU, 8: RL, 9: RU}, ("addRow", 3): {1: RL, 2: RU}, ("addCol", 4): {1: CL, 2: CU}, ("addRow", 5): {3: RL, 4: RU}, ("addCol", 6): {3: CL, 4: CU}}
API = {("SetVariablesLowerBounds", 2): {1: CL}, ("SetVariablesUpperBounds", 2): {1: CU}, ("SetVariableBounds", 3): {1: CL, 2: CU}, ("SetVariableLowerBound", 2): {1: CL}, ("SetVariableUpperBound", 2): {1: CU}}
BND = {1: CL, 2: CU, 4: RL, 5: RU}      # get_bounds_info(n, x_l, x_u, m, g_l, g_u)
COPY = {"memcpy": (0, 1), "CoinCopyN": (2, 0), "CoinDisjointCopyN": (2, 0), "copy": (2, 0), "CoinMemcpyN": (2, 0), "copy_n": (2, 0), "Ipopt::IpBlasDcopy": (3, 1), "IpBlasDcopy": (3, 1), "IpBlasCopy": (3, 1)}
THRU = {"CoinMin", "CoinMax", "min", "max", "floor", "ceil", "CoinCopyOfArray", "CoinCopyOfArrayPartial", "begin", "end", "operator()", "data", "operator[]", "at", "back", "front", "operator*", "operator->", "GetRawPtr", "round"}

class Flow:
    def __init__(self, P):
        self.P = P; self.tags = {}; self.seeded = {}; self.edges = {}; self.expect = {}; self.sites = []; self.seeds = 0
        self.build(); self.solve()
    # a place that can hold bounds
    def place(self, f, n):
        n = peel(n)
        if n is None: return None
        k = n["k"]
        if k == "var": return ("v", f["key"], n["id"]) if n["w"] != "global" else ("g", n["name"])
        if k == "mem":
            for c in [n["cls"]]:
                if (c, n["f"]) in FIELDS: return ("role", FIELDS[(c, n["f"])])
            return ("f", n["cls"], n["f"])
        if k == "idx": return self.place(f, n["b"])
        if k == "un" and n["op"] in ("*", "&", "+"): return self.place(f, n["e"])
        if k == "bin" and n["op"] in ("+", "-"):
            a = self.place(f, n["a"])
            return a
        if k == "call":
            if n.get("op") in ("[]", "*", "->", "()") and n.get("obj") is not None: return self.place(f, n["obj"])
            if n.get("name") in ("begin", "end", "data", "front", "back", "at", "operator()") and n.get("obj") is not None: return self.place(f, n["obj"])
            if n.get("name") in SRC and self.osi(n.get("cls")) and not n.get("a"): return ("role", SRC[n["name"]])
            g = self.P.target(n)
            if g is not None and g.get("b") is not None: return ("r", g["key"])
        if k == "assign": return self.place(f, n["a"])
        return None
    def osi(self, c): return c is not None and (c == OSI or OSI in self.P.bases(c) or c.startswith("Osi"))
    # all places an expression takes its value from
    def srcs(self, f, n):
        n = peel(n)
        if n is None: return []
        k = n["k"]
        if k == "cond": return self.srcs(f, n["t"]) + self.srcs(f, n["e"])
        if k == "call":
            nm = n.get("name")
            if nm in THRU and nm not in ("begin", "end", "data", "at", "back", "front", "operator()", "operator[]"):
                r = []
                for a in n.get("a", [])[:2]: r += self.srcs(f, a)
                if r or n.get("obj") is None: return r
            if nm == "operator=" or n.get("op") == "=": return self.srcs(f, n["a"][0])
        if k == "bin":
            if n["op"] in ("+", "-"):
                a, b = self.srcs(f, n["a"]), self.srcs(f, n["b"])
                # pointer arithmetic and tolerances keep the left operand's role
                if a and b and self.places_tagged(a) and self.places_tagged(b): return []
                return a or (b if n["op"] == "+" else [])
            return []
        if k == "un" and n["op"] in ("-", "!", "~"): return []
        if k == "ctor": 
            return [p for a in n.get("a", [])[:1] for p in self.srcs(f, a)]
        if k == "new": return self.srcs(f, n.get("e")) if n.get("e") is not None else []
        p = self.place(f, n)
        return [p] if p else []
    def places_tagged(self, ps): return any(self.maybe(p) for p in ps)
    def maybe(self, p): return p[0] == "role" or bool(self.tags.get(p))
    def edge(self, src, dst):
        if src and dst and src != dst and dst[0] != "role": self.edges.setdefault(src, set()).add(dst)
    def seed(self, p, role):
        if p and p[0] != "role": self.seeded.setdefault(p, set()).add(role); self.seeds += 1
    def override(self, f): return f["name"] == "get_bounds_info" and len(f["p"]) == 6
    def build(self):
        P = self.P
        for rnd in range(2):
            self.edges = {}; self.sites = []
            for f in P.F.values():
                if f.get("b") is None: continue
                if self.override(f):
                    for i, r in BND.items(): self.seed(("v", f["key"], f["p"][i]["id"]), r)
                elif (f["name"], len(f["p"])) in SINK and f.get("cls") and OSI in P.bases(f["cls"]):
                    for i, r in SINK[(f["name"], len(f["p"]))].items(): self.seed(("v", f["key"], f["p"][i]["id"]), r)
                elif (f["name"], len(f["p"])) in API and f.get("cls") == "Bonmin::TMINLP2TNLP":
                    for i, r in API[(f["name"], len(f["p"]))].items(): self.seed(("v", f["key"], f["p"][i]["id"]), r)
                for ini in f.get("inits") or []:
                    if ini.get("f") and ini.get("e") is not None:
                        for s in self.srcs(f, ini["e"]): self.edge(s, ("f", f.get("cls"), ini["f"]))
                for n in walk(f["b"]): self.node(f, n)
            if rnd == 0: self.solve()
    def node(self, f, n):
        k = n["k"]
        if k == "decl":
            for v in n["v"]:
                if v.get("e") is not None and v.get("id") is not None:
                    for s in self.srcs(f, v["e"]): self.edge(s, ("v", f["key"], v["id"]))
        elif k == "assign" and n["op"] in ("=", "+=", "-="):
            d = self.place(f, n["a"])
            ss = self.srcs(f, n["b"]) if n["op"] == "=" else []
            for s in ss: self.edge(s, d)
            if ss and d: self.sites.append((f, n, d, ss, None))
        elif k == "return" and n.get("e") is not None:
            for s in self.srcs(f, n["e"]): self.edge(s, ("r", f["key"]))
        elif k == "call":
            nm, a = n.get("name"), n.get("a") or []
            if nm in COPY and len(a) > max(COPY[nm]):
                d, ss = self.place(f, a[COPY[nm][0]]), self.srcs(f, a[COPY[nm][1]])
                for s in ss: self.edge(s, d)
                if d and ss: self.sites.append((f, n, d, ss, None))
            elif nm in ("push_back", "assign", "operator=") and n.get("obj") is not None and a:
                d = self.place(f, n["obj"])
                for s in self.srcs(f, a[0]): self.edge(s, d)
            elif nm == "get_bounds_info" and len(a) == 6:
                for i, r in BND.items(): self.seed(self.place(f, a[i]), r)
            elif (nm, len(a)) in SINK and self.osi(n.get("cls")):
                for i, r in SINK[(nm, len(a))].items():
                    ss = self.srcs(f, a[i])
                    if ss: self.sites.append((f, n, ("role", r), ss, i))
            for g in self.P.targets(n):
                if g.get("b") is None: continue
                for i, (x, p) in enumerate(zip(a, g["p"])):
                    ct = p.get("ct", "")
                    ss = self.srcs(f, x)
                    if ss and not self.override(g): self.sites.append((f, n, ("v", g["key"], p["id"]), ss, (g, i)))
                    for s in self.srcs(f, x):
                        self.edge(s, ("v", g["key"], p["id"]))
                        if ("double *" in ct and "const" not in ct) and not nm == "get_bounds_info": self.edge(("v", g["key"], p["id"]), s)
        elif k == "ctor":
            for g in self.P.targets(n) if n.get("fn") else []:
                if g.get("b") is None: continue
                for x, p in zip(n.get("a") or [], g["p"]):
                    for s in self.srcs(f, x): self.edge(s, ("v", g["key"], p["id"]))
    def solve(self):
        """Least solution in which a place that receives bounds of two kinds passes nothing on."""
        blocked = {p for p, t in self.seeded.items() if len(t) > 1}
        while True:
            self.tags = {p: set(t) for p, t in self.seeded.items()}
            work = [(p, set(t)) for p, t in self.tags.items() if p not in blocked] + [(("role", r), {r}) for r in (CL, CU, RL, RU)]
            while work:
                p, t = work.pop()
                for d in self.edges.get(p, ()):
                    if d in self.seeded: continue
                    new = t - self.tags.get(d, set())
                    if new:
                        self.tags.setdefault(d, set()).update(new)
                        if d not in blocked: work.append((d, new))
            bad = {p for p, t in self.tags.items() if len(t) > 1} - blocked
            if not bad: return
            blocked |= bad
    def wanted(self, p, seen=None):
        """Roles of the places a parameter's value ends up in."""
        if p[0] == "role": return {p[1]}
        if p in self.seeded: return set(self.seeded[p])
        seen = seen if seen is not None else set()
        if p in seen: return set()
        seen.add(p); r = set()
        for d in self.edges.get(p, ()): r |= self.wanted(d, seen)
        return r
    def role(self, ps):
        r = set()
        for p in ps: r |= {p[1]} if p[0] == "role" else self.tags.get(p, set())
        return r
