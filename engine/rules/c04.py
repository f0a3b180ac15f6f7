"""C04 copies, clones and assignments carry the complete state."""
from .common import *

NDEBUG = False

# State that a copy is not meant to inherit, with the reason.
def _own(*rows): return {("Bonmin::" + c, f): why for c, fs, why in rows for f in fs.split()}
OWN = _own(
    ("SubMipSolver", "lowBound_ optimal_ integerSolution_ nodeCount_ iterationCount_", "result of the last sub-MIP"),
    ("SubMipSolver", "cpx_", "Cplex is not configured"),
    ("BonChooseVariable", "start_time_", "each object has its own clock"),
    ("EcpCuts", "violation_", "result of the last separation"),
    ("DiverCompare", "comparisonDepth_", "an object without state"),
    ("BonChooseVariable", "number_not_trusted_", "statistics of the last setup of the list"),
    ("LpBranchingSolver", "lin_ warm_ ecp_", "hot-start data, rebuilt by markHotStart"),
    ("QpBranchingSolver", "branching_tqp_ first_solve_ tqp_solver_", "hot-start data, rebuilt by markHotStart"),
    ("OaDecompositionBase", "nSolve_ nLocalSearch_ savedCuts_", "statistics and cuts of the running separation"),
    ("OaNlpOptim", "nSolve_", "statistics"),
    ("QuadRow", "g_ a_grad_idx_ Q_row_grad_idx_ Q_col_grad_idx_ Q_hessian_idx_ grad_evaled_", "indices rebuilt by initialize()"),
    ("TMINLP2TNLPQuadCuts", "H_", "rebuilt from the rows"),
    ("TMat", "nonEmptyRows_ nonEmptyCols_", "cache"),
    ("TMat", "capacity_", "the copy is as large as its contents"),
    ("CbcNlpStrategy", "hasFailed_ CbcStrategy", "state of one search"),
    ("HeuristicDiveVectorLength", "columnLength_", "recomputed by setInternalVariables"),
    ("HeuristicDiveMIPVectorLength", "columnLength_", "recomputed by setInternalVariables"),
    ("IpoptSolver", "app_ enable_warm_start_ optimized_before_", "the copy has an application of its own"),
    ("IpoptWarmStart", "warm_starter_", "documented: not inherited by an owning copy"),
    ("IpoptWarmStartDiff", "warm_starter_", "a difference has no iterate of its own"),
    ("OsiTMINLPInterface", "rowsense_ rhs_ rowrange_ reducedCosts_ jRow_ jCol_ jValues_ constTypes_ nNonLinear_@copy", "caches rebuilt on demand"),
    ("OsiTMINLPInterface", "nCallOptimizeTNLP_ totalNlpSolveTime_ totalIterations_ firstSolve_", "statistics"),
)

REFCOUNT = ("Ipopt::ReferencedObject", "Coin::ReferencedObject", "Bonmin::SimpleReferenced")

def bare(ct): return ct.replace("const ", "").replace("&", "").strip()

class H(EvHooks):
    rich = True
    slice = False
    def __init__(self, P, cls, src, extra):
        EvHooks.__init__(self, P, relevant=lambda n: False, max_inline=5, cap=120)
        self.cls = cls; self.src = src; self.extra = extra
        self.fields = {f["f"] for f in cls["fields"]}
        self.counts = {f["f"] for f in cls["fields"] if f["ct"] in ("int", "unsigned int", "size_t", "unsigned long", "long")}
        self._mr = {}
        self.touched = {}       # writes into the source
    def want_inline(self, ip, fn, call):
        if ip.trivial(fn): return True
        if ip.size(fn) > 2500: return False
        if fn.get("cls") == self.cls["qn"] and not fn.get("virtonly"): return call.get("obj") is not None and peel(call["obj"]).get("k") == "this" and not fn["name"].startswith("operator")
        return False
    # -- who does a value belong to
    def _src(self, v): return v == ("obj", self.src) or (v[0] == "i" and v[1] == self.src)
    def from_src(self, st, v, seen=None):
        """Names of the source's fields a value was computed from; '*' for the whole source."""
        out = set()
        seen = seen if seen is not None else set()
        def go(x):
            if not isinstance(x, tuple) or not x: return
            if x[0] == "f" and len(x) == 3 and self._src(x[1]): out.add(x[2]); return
            if x[0] in ("pure", "call") and len(x) > 3 and x[2 if x[0] == "pure" else 3] and self._src(x[2 if x[0] == "pure" else 3][0]):
                out.add("()" + x[1].split("::")[-1])
                out.update(self.method_reads(x[1]))
                for y in x[3:] if x[0] == "pure" else x[4:]:
                    if isinstance(y, tuple): go(y)
                return
            if x == ("obj", self.src) or x == ("addr", self.src) or x == self.src: out.add("*"); return
            if x[0] == "p" and x[1] in self.extra: out.add("@" + x[1])
            if x[0] == "v" and len(x) == 4 and x[1] == "m" and x[3] in self.extra: out.add("@" + x[3])
            if x[0] in ("new", "tmp", "v") and x not in seen:
                seen.add(x)
                for y in st.ts.get(("d", x), ()): out.add(y)
            for y in x:
                if isinstance(y, tuple): go(y)
        go(v)
        return out
    def method_reads(self, fn):
        """Members of the source that one of its methods looks at (not the whole class: only what the body names)."""
        if fn not in self._mr:
            out = set()
            for f in self.P.byname.get(fn, ()) if hasattr(self.P, "byname") else [f for f in self.P.F.values() if f["fn"] == fn]:
                for m in walk(f.get("b")):
                    if m["k"] == "mem" and m["f"] in self.fields: out.add(m["f"])
            self._mr[fn] = out if len(out) <= 2 else set()
        return self._mr[fn]
    def mine(self, st, v):
        """Own fields whose storage or content v denotes."""
        out = set()
        seen = set()
        cur = {}
        for k, w in st.env.items():
            if k[0] == "f" and k[1] == ("this",) and w[0] in ("new", "call", "copy", "pure", "out"): cur.setdefault(w, set()).add(k[2])
        def go(x):
            if not isinstance(x, tuple) or not x: return
            if x[0] == "f" and len(x) == 3 and x[1] == ("this",): out.add(x[2]); return
            if x in cur: out.update(cur[x])
            for y in x:
                if isinstance(y, tuple): go(y)
        go(v)
        return out
    def mark(self, st, dst, deps):
        for f in dst:
            o = st.ts.get(("t", f), frozenset())
            n = o | frozenset(deps)
            if n != o: st.ts[("t", f)] = n
    def locdst(self, st, loc):
        if loc[0] == "f" and loc[1] == ("this",): return {loc[2]}
        if loc[0] in ("f", "e"): return self.mine(st, loc)
        return set()
    def note_dep(self, st, key, deps):
        o = st.ts.get(("d", key), frozenset())
        if deps and not deps <= o: st.ts[("d", key)] = o | frozenset(deps)
    def assign(self, ip, st, n, loc, val):
        if val[0] == "ctorval": return       # the constructor call itself was seen
        dv = DERIVED.get((self.cls["qn"], loc[2])) if loc[0] == "f" and loc[1] == ("this",) else None
        if dv is not None:
            got = "none" if val == ZERO else None
            for w in dv[1:]:
                part = st.env.get(("f", ("this",), w))
                if mentions(val, lambda y: y == ("f", ("this",), w)) or (part is not None and part != ZERO and mentions(val, lambda y: y == part)): got = w; break
            st.ts[("part", loc[2])] = got
        deps = self.from_src(st, val)
        if loc[0] == "e": deps |= self.from_src(st, loc[2])
        if loc[0] == "f" and self._src(loc[1]) or (loc[0] == "e" and self.from_src(st, loc[1]) and not self.mine(st, loc[1])):
            w = loc[2] if loc[0] == "f" else "/".join(sorted(self.from_src(st, loc[1])))
            if not any(mentions(loc, lambda x: x[0] == "new") for _ in (0,)): self.touched.setdefault(w, (n.get("l"), txt(n)))
        d = self.locdst(st, loc)
        if loc[0] == "f" and d: st.ts[("t", loc[2])] = frozenset(deps)
        elif d and deps: self.mark(st, d, deps)
        if not d and deps:
            r = loc
            while r[0] in ("e", "f"): r = root(r[1]) if r[0] == "e" else (r[1][1] if r[1][0] == "obj" else r[1])
            self.note_dep(st, r, deps)
    def decl(self, ip, st, v, loc, val):
        if val is not None:
            d = self.from_src(st, val)
            if d: self.note_dep(st, loc, d)
    def call(self, ip, st, n, obj, args):
        vals = [ip.val_of(st, a) for a in args]
        allv = vals + [a for a in args if a[0] == "lref"] + ([obj] if obj is not None else [])
        if n.get("name") in ("resize", "reserve"): return None      # room, not contents
        deps, cnt = set(), set()
        for v, h in list(zip(vals, n.get("how", ""))) + [(a, "r") for a in args if a[0] == "lref"] + ([(obj, "o")] if obj is not None else []):
            d = self.from_src(st, v)
            if h == "v" and n["k"] == "call" and not (n.get("op") or "").endswith("="): cnt |= d
            else: deps |= d
        deps = deps or cnt        # a count passed along with the data is not data
        if not deps: return None
        if n["k"] == "ctor" and obj is not None:
            if obj[0] in ("new", "tmp"): self.note_dep(st, obj, deps)
            elif obj[0] == "obj":
                d = self.locdst(st, obj[1])
                if d: self.mark(st, d, deps)
                else: self.note_dep(st, obj[1], deps)
            elif obj == ("this",): st.ts[("base", n.get("cls"))] = frozenset(deps)
            return None
        if n.get("name") == "operator=" and n.get("cls") != self.cls["qn"] and obj == ("this",): st.ts[("base", n.get("cls"))] = frozenset(deps)
        dst = set()
        ptrs = []
        if obj is not None and not n.get("cm"): ptrs.append(obj)
        for a, h in zip(args, n.get("how", "")):
            if h in "rp": ptrs.append(a)
        for v in ptrs:
            if self.from_src(st, v) and not self.mine(st, v): continue
            m = self.mine(st, v)
            dst |= m
            if not m:
                x = v
                while x[0] in ("lref", "obj", "addr", "e", "f", "op"): x = x[1] if x[0] != "op" else x[2]
                if x[0] in ("v", "new", "tmp"): self.note_dep(st, x, deps)
        if dst: self.mark(st, dst, deps)
        return None
    def loop_exit(self, ip, sts, n):
        """Copying element by element: no element means nothing to copy."""
        allm = {}
        for s in sts:
            for k, v in s.ts.items():
                if k[0] in ("t", "d"): allm[k] = allm.get(k, frozenset()) | v
        out = []
        for s in sts:
            if any(s.ts.get(k) != v for k, v in allm.items()):
                s = s.copy()
                for k, v in allm.items(): s.ts[k] = v
            out.append(s)
        return out

def copies(P):
    """(class, function, source parameter, other parameters) of every hand-written copy operation."""
    for f in sorted(P.F.values(), key=lambda f: (f["file"], f["l"])):
        c = P.C.get(f.get("cls"))
        if c is None or not c.get("inrepo") or f.get("b") is None or not f["p"]: continue
        p = f["p"][0]
        if bare(p["ct"]) != c["qn"] or not p["ct"].rstrip().endswith("&"): continue
        if f.get("ctor") or f["name"] == "operator=": yield c, f, p, [q["name"] for q in f["p"][1:]]

def stateless(P, qn, seen=()):
    c = P.C.get(qn)
    if c is None: return None
    if c["fields"]: return False
    return all(stateless(P, b) in (True, None) or b in REFCOUNT for b in c["bases"])

MODEL = {"tminlp_"}      # an interface without a model has nothing else to copy

def nothing_there(h, st, x):
    """The path is one on which the source was found to be empty."""
    for a, b in st.facts.items():
        z = None
        if a[0] == "nz" and b and a[1][0] in ("pure", "call") and a[1][1].split("::")[-1] in ("empty", "isEmpty"): z = a[1]
        elif a[0] == "nz" and not b: z = a[1]
        elif a[0] == "lt" and a[1] == ZERO and not b: z = a[2]
        elif a[0] == "lt" and a[2] == ONE and b: z = a[1]
        elif a[0] == "eq" and b and ZERO in a[1:]: z = a[1] if a[2] == ZERO else a[2]
        elif a[0] == "eq" and b and C(-1) in a[1:]: z = a[1] if a[2] == C(-1) else a[2]
        if z is None: continue
        d = h.from_src(st, z)
        if x in d or any(y.startswith("()") or y in h.counts or y in MODEL for y in d): return True
    return False

def readers(P):
    """Members that some function other than a copy operation, constructor or destructor reads."""
    skip = {f["key"] for _, f, _, _ in copies(P)}
    out = set()
    for f in P.F.values():
        if f.get("b") is None or f["key"] in skip or f.get("ctor"): continue
        lhs = set()
        for n in walk(f["b"]):
            if n["k"] == "assign" and n.get("op", "=") == "=": lhs.add(id(peel(n["a"])))
            elif n["k"] == "un" and n.get("op") in ("++", "--"): lhs.add(id(peel(n["e"])))
            elif n["k"] == "delete": lhs.add(id(peel(n["e"])))
        for n in walk(f["b"]):
            if n["k"] == "mem" and id(n) not in lhs: out.add((n.get("cls"), n["f"]))
    return out

def own(c, x, nm): return (c["qn"], x) in OWN or (nm != "operator=" and (c["qn"], x + "@copy") in OWN)

# Pointers that select one of the object's own parts: (class, member) -> (selecting member, part when set, part when not)
DERIVED = {("Bonmin::OsiTMINLPInterface", "problem_to_optimize_"): ("feasibility_mode_", "feasibilityProblem_", "problem_")}

def fresh(fd, v):
    """Members that every object sets up for itself: message tables and the moment the clock was started."""
    if "CoinMessages" in fd["ct"] or fd["ct"].split("::")[-1] in ("Messages", "OaMessages"): return True
    return v is not None and v[0] in ("pure", "call") and v[1].split("::")[-1] in ("CoinCpuTime", "CoinWallclockTime", "CoinGetTimeOfDay")

def check_copies(P, R):
    R.rule("C04.copy", "on every path of a hand-written copy constructor or assignment each member of the new object is taken from, or filled from, the same member of the source (or from a replacement argument); base classes are copied too; the source is not written to")
    n = 0
    live = readers(P)
    for c, f, p, extra in copies(P):
        if len(extra) > 1: continue      # builds an object from options and replacements: not a copy
        n += 1
        src = ("v", "m", p["id"], p["name"])
        h = H(P, c, src, extra)
        ip = Interp(P, h)
        res = ip.run(f, St())
        R.ran(ip)
        miss, wrong, maybe, good = {}, {}, {}, set()
        bmiss = {}
        done = 0
        nm = f["name"] if f["name"] == "operator=" else "copy constructor"
        for kind, st, val in res:
            if kind != "ret": continue
            if any(b and a[0] == "eq" and ("this",) in a[1:] and any(x[0] == "addr" or x == ("obj", src) for x in a[1:]) for a, b in st.facts.items()): continue
            done += 1
            for fd in c["fields"]:
                x = fd["f"]
                empty = nothing_there(h, st, x)
                if (c["qn"], x) not in live or fresh(fd, st.env.get(("f", ("this",), x))): continue
                loc = ("f", ("this",), x)
                v = st.env.get(loc)
                dv = DERIVED.get((c["qn"], x))
                if dv is not None:
                    m = [b for a, b in st.facts.items() if a[0] == "nz" and mentions(a, lambda y: y[0] == "f" and y[2] == dv[0])]
                    want = dv[1] if m and m[0] else dv[2]
                    got = st.ts.get(("part", x))
                    if (got == "none" and empty) or (m and got == want): good.add(x); continue
                    wrong.setdefault(x, (["a part not selected by " + dv[0]], st.path())); continue
                deps = set(st.ts.get(("t", x), ()))
                if v is not None: deps |= h.from_src(st, v)
                for a, b in st.facts.items():
                    if v is not None and v[0] in ("c", "new", "op", "addr", "call"): deps |= {y for y in h.from_src(st, a) if y == x}
                if x in deps or "*" in deps or (deps and all(d.startswith("()") for d in deps)) or any(d.startswith("@") for d in deps): good.add(x); continue
                if empty: maybe.setdefault(x, st.path()); continue
                if not deps: miss.setdefault(x, st.path())
                else: wrong.setdefault(x, (sorted(deps), st.path()))
            for b in c["bases"]:
                if b in REFCOUNT or stateless(P, b): continue
                if ("base", b) not in st.ts: bmiss.setdefault(b, st.path())
        if not done: continue
        for x, pth in maybe.items():
            if x not in good: miss.setdefault(x, pth)
        R.ob(len(c["fields"]) + len(c["bases"]) + 1)
        R.sample("%s (%s:%d): %d members on %d paths" % (f["fn"], rel(f), f["l"], len(c["fields"]), done))
        sig = nm if not extra else "%s(source, %s)" % (nm, ", ".join(extra))
        for x, pth in sorted(miss.items()):
            if own(c, x, nm): R.count("members deliberately not inherited"); continue
            R.v("C04.copy", f, f["l"], "%s: %s" % (sig, x), "member %s of %s does not receive the source's value" % (x, c["qn"]), pth)
        for x, (d, pth) in sorted(wrong.items()):
            if own(c, x, nm): R.count("members deliberately not inherited"); continue
            R.v("C04.copy", f, f["l"], "%s: %s" % (sig, x), "member %s of %s is filled from %s, not from the source's %s" % (x, c["qn"], ", ".join(d), x), pth)
        for b, pth in sorted(bmiss.items()):
            if (c["qn"], b) in OWN: continue
            R.v("C04.copy", f, f["l"], "%s: base %s" % (sig, b), "base class %s is not copied from the source" % b, pth)
        for w, (l, t) in sorted(h.touched.items()):
            R.v("C04.copy", f, l, "%s writes source.%s" % (sig, w), "the source of the copy is modified (%s)" % t)
    R.count("copy operations", n)
    R.atleast("hand-written copy operations", n, 40)

def check_clones(P, R):
    R.rule("C04.clone", "clone() of a class returns a new object of that very class, built from *this; a concrete class in a cloneable hierarchy has its own clone")
    own = {}
    for f in P.F.values():
        c = P.C.get(f.get("cls"))
        if c is not None and c.get("inrepo") and f["name"] == "clone" and f.get("b") is not None: own.setdefault(c["qn"], []).append(f)
    R.atleast("clone methods", len(own), 25)
    for qn in sorted(own):
        for f in own[qn]:
            seen = {}
            class K(EvHooks):
                rich = True
                slice = False
                def call(self, ip, st, n, obj, args):
                    if n["k"] == "ctor" and obj is not None:
                        vs = [ip.val_of(st, a) for a in args] + list(args)
                        me = any(v == ("this",) or mentions(v, lambda x: x == ("this",)) for v in vs)
                        if ("ct", obj) not in st.ts: st.ts[("ct", obj)] = (n.get("cls"), me)
                    return None
                def want_inline(self, ip, fn, call):
                    return ip.trivial(fn) or (fn.get("cls") == qn and fn["name"] not in ("clone",) and not fn.get("ctor") and ip.size(fn) < 800)
            ip = Interp(P, K(P, relevant=lambda n: False))
            for kind, st, v in ip.run(f, St()):
                if kind != "ret": continue
                R.ob()
                if v == ZERO or v[0] == "uninit":
                    R.v("C04.clone", f, f["l"], "clone returns NULL", "clone() yields no object", st.path()); continue
                if v[0] == "call" and v[1].split("::")[-1].startswith("clone"): continue   # delegates to another clone
                if v[0] != "new":
                    R.v("C04.clone", f, f["l"], "clone result", "clone() does not return a fresh object", st.path()); continue
                t = st.ts.get(("ct", v))
                if t is None: t = (v[2], False)
                if t[0] != qn: R.v("C04.clone", f, f["l"], "clone type", "clone() of %s makes a %s" % (qn, t[0]), st.path())
                elif not t[1] and P.C[qn]["fields"] and not f["p"]: R.v("C04.clone", f, f["l"], "clone source", "clone() of %s is not built from *this" % qn, st.path())
            R.ran(ip)
    # concrete classes without a clone of their own
    inst = set()
    for f in P.F.values():
        for n in walk(f.get("b")):
            if n["k"] == "new" and not n.get("arr"): inst.add(n["t"].replace("const ", "").strip())
            elif n["k"] == "ctor": inst.add(n.get("cls", ""))
    for qn, c in sorted(P.C.items()):
        if not c.get("inrepo") or qn in own or c.get("abstract"): continue
        bs = [b for b in P.bases(qn) if any(m["name"] == "clone" for m in P.C.get(b, {"methods": ()})["methods"])]
        if not bs or qn not in inst: continue
        if any(m["name"] == "clone" for m in c["methods"]): continue
        R.ob()
        R.v("C04.clone", {"fn": qn, "file": c["file"], "l": c["l"]}, c["l"], "no clone", "%s inherits clone() from %s: a clone would be a %s" % (qn, bs[0], bs[0]))

def run(P, R):
    check_copies(P, R)
    check_clones(P, R)
