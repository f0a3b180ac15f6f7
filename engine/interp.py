"""Path-sensitive dataflow over resolved function bodies.

Values are value-numbers (immutable tuples), branch conditions become facts on
value numbers, loops are summarised by havocking what they may change and
iterating the rule's typestate to a fixpoint, helpers are inlined.  Nothing is
executed and no path condition is given to a solver: a path is pruned only when
it contradicts one of its own recorded facts syntactically.
"""
import itertools
from model import Program, txt, walk, peel, kids, rel
from extract import Broken

_COUNT = itertools.count(1)   # node ids in order of first visit; unique per process
def C(n): return ("c", n)
ZERO, ONE = C(0), C(1)
UNK = ("?",)

class HD(dict):
    """dict with an incrementally maintained 64-bit content hash."""
    __slots__ = ("h",)
    def __init__(self, d=None):
        if d is None: self.h = 0
        elif isinstance(d, HD):
            dict.__init__(self, d); self.h = d.h
        else:
            dict.__init__(self, d); h = 0
            for kv in d.items(): h ^= hash(kv)
            self.h = h
    def __setitem__(self, k, v):
        if k in self:
            o = dict.__getitem__(self, k)
            if o is v: return
            self.h ^= hash((k, o))
        self.h ^= hash((k, v))
        dict.__setitem__(self, k, v)
    def __delitem__(self, k):
        self.h ^= hash((k, dict.__getitem__(self, k)))
        dict.__delitem__(self, k)
    def pop(self, k, d=None):
        if k in self:
            v = dict.__getitem__(self, k); del self[k]; return v
        return d
    def setdefault(self, k, d):
        if k not in self: self[k] = d
        return self[k]
    def update(self, *a): raise NotImplementedError
    def clear(self):
        dict.clear(self); self.h = 0

class St:
    __slots__ = ("env", "facts", "ts", "ep", "trace")
    def __init__(s, env=None, facts=None, ts=None, ep=None, trace=None):
        s.env = HD(env); s.facts = HD(facts); s.ts = HD(ts); s.ep = HD(ep); s.trace = trace
    def copy(s):
        return St(s.env, s.facts, s.ts, s.ep, s.trace)
    def key(s):
        return (s.env.h, s.ts.h, s.ep.h)
    def full(s):
        return (s.env.h, s.ts.h, s.ep.h, s.facts.h)
    def note(s, line, text):
        s.trace = (s.trace, line, text)
    def path(s):
        out, t = [], s.trace
        while t:
            out.append("%s: %s" % (t[1], t[2])); t = t[0]
        return out[::-1]

class Hooks:
    """Rules override what they need; every method may mutate st.ts."""
    max_inline = 4
    cap = 300
    slice = False    # skip statements that cannot influence any relevant construct
    def matters(self, ip, n): return True
    keep = None      # predicate on facts the rule inspects; None: keep every fact
    def want_inline(self, ip, fn, call): return None     # None: default policy
    def call(self, ip, st, n, obj, args): return None     # None: default; or list[(st,val)]
    def after_call(self, ip, st, n, obj, args, val): pass
    def assign(self, ip, st, n, loc, val): pass
    def new(self, ip, st, n, val): pass
    def delete(self, ip, st, n, val): pass
    def ret(self, ip, st, n, val): pass       # before a return statement leaves the scope
    def may_throw(self, ip, st, n): return ()
    def branch(self, ip, st, n, truth): pass
    def read(self, ip, st, loc): return None
    def loop(self, ip, st, n): pass
    def iter_end(self, ip, st, n): pass
    def head(self, ip, st, n): pass       # a loop head state, for each typestate reached there
    def loop_exit(self, ip, sts, n): return sts
    scoped = False   # forget variables when their scope ends
    rich = False     # results of unknown calls also carry receiver and arguments
    def decl(self, ip, st, v, loc, val): pass
    def keepkey(self, st): return ()
    def snapshot(self, ip): return len(self.R.viol) if getattr(self, "R", None) is not None else None
    def restore(self, ip, m):
        if m is not None: del self.R.viol[m:]

SCALAR_CLASSES = ("SmartPtr", "basic_string", "SimpleReferencedPtr")
def scalar_class(t):
    return any(x in t for x in SCALAR_CLASSES) or t in ("std::string", "string")

PURE_EXT = {"fabs", "abs", "floor", "ceil", "max", "min", "CoinMax", "CoinMin", "CoinAbs", "isnan", "sqrt", "pow",
            "operator==", "operator!=", "CoinCpuTime", "CoinFinite", "CoinIsnan", "IsNull", "IsValid"}

class Interp:
    def __init__(self, prog, hooks):
        self.P = prog; self.H = hooks
        self.frames = ["m"]
        self.fstack = []
        self.rets = []; self.brk = []; self.cont = []; self.sink = []
        self._nid = 0
        self.funcs_seen = set()
        self.paths = 0
        self.widened = 0
        self.steps = 0
        self._trivial = {}
        self._size = {}
        self._loopmods = {}
        self.atomtxt = {}
        self.repeat = None
        self._wanted = {}
        self._slices = {}
        self.skipped = 0

    # ---- ids ---------------------------------------------------------
    def site(self, n):
        # the node id is a function of the program only (order of first visit
        # within one run), qualified by the inline frame
        if "_n" not in n:
            n["_n"] = next(_COUNT)
        return (self.frames[-1], n["_n"])

    # ---- facts -------------------------------------------------------
    def truth(self, st, v):
        """Known truth of value v, or None."""
        t = v[0]
        if t == "c": return bool(v[1])
        if t == "b": 
            r = self.known(st, v[1])
            return None if r is None else (r == v[2])
        if t in ("new", "addr", "str", "obj", "arr", "this", "fn", "tmp"): return True
        return self.known(st, ("nz", v))

    def known(self, st, a):
        f = st.facts
        if a in f: return f[a]
        k = a[0]
        if k == "nz":
            v = a[1]
            if v[0] == "c": return bool(v[1])
            if v[0] in ("new", "addr", "str", "obj", "arr", "this", "fn", "tmp"): return True
            for (x, b) in f.items():
                if not b: continue
                if x[0] == "eq":
                    if x[1] == v and x[2][0] == "c": return bool(x[2][1])
                    if x[2] == v and x[1][0] == "c": return bool(x[1][1])
                    if x[1] == v and x[2][0] in ("new", "addr", "obj"): return True
                elif x[0] == "lt":
                    if x[1] == v and x[2][0] == "c" and x[2][1] is not None and x[2][1] <= 0: return True
                    if x[2] == v and x[1][0] == "c" and x[1][1] is not None and x[1][1] >= 0: return True
            return None
        if k == "eq":
            x, y = a[1], a[2]
            if x == y: return True
            if x[0] == "c" and y[0] == "c": return x[1] == y[1]
            if x[0] == "str" and y[0] == "str": return x[1] == y[1]
            if x[0] == "new" and y[0] in ("new",): return False
            if f.get(("lt", x, y)) or f.get(("lt", y, x)): return False
            if y[0] == "c": c, o = y, x
            elif x[0] == "c": c, o = x, y
            else: return None
            if c[1] == 0:
                r = self.known(st, ("nz", o)); 
                if r is not None: return not r
            for (z, b) in f.items():
                if z[0] == "eq" and b:
                    if z[1] == o and z[2][0] == "c": return z[2][1] == c[1]
                    if z[2] == o and z[1][0] == "c": return z[1][1] == c[1]
                if z[0] == "nz" and z[1] == o and not b and c[1] != 0: return False
                if z[0] == "lt":
                    if b and z[1] == o and z[2][0] == "c" and num(z[2]) and num(c) and c[1] >= z[2][1]: return False
                    if b and z[2] == o and z[1][0] == "c" and num(z[1]) and num(c) and c[1] <= z[1][1]: return False
            return None
        if k == "lt":
            x, y = a[1], a[2]
            if x == y: return False
            if x[0] == "c" and y[0] == "c" and num(x) and num(y): return x[1] < y[1]
            if f.get(("eq", x, y)) or f.get(("eq", y, x)): return False
            if f.get(("lt", y, x)): return False
            if y[0] == "c" and num(y):
                e = self.eqc(f, x)
                if e is not None: return e < y[1]
                for z, b in f.items():
                    if z[0] == "lt" and z[1] == x and z[2][0] == "c" and num(z[2]) and b and z[2][1] <= y[1]: return True
                    if z[0] == "lt" and z[1] == x and z[2][0] == "c" and num(z[2]) and not b and z[2][1] >= y[1]: return False
                    if z[0] == "lt" and z[2] == x and z[1][0] == "c" and num(z[1]) and b and z[1][1] >= y[1]: return False
            if x[0] == "c" and num(x):
                e = self.eqc(f, y)
                if e is not None: return x[1] < e
                for z, b in f.items():
                    if z[0] == "lt" and z[2] == y and z[1][0] == "c" and num(z[1]) and b and z[1][1] >= x[1]: return True
                    if z[0] == "lt" and z[2] == y and z[1][0] == "c" and num(z[1]) and not b and z[1][1] <= x[1]: return False
                    if z[0] == "lt" and z[1] == y and z[2][0] == "c" and num(z[2]) and b and z[2][1] <= x[1]: return False
            return None
        return None

    def eqc(self, f, v):
        for z, b in f.items():
            if b and z[0] == "eq":
                if z[1] == v and z[2][0] == "c" and num(z[2]): return z[2][1]
                if z[2] == v and z[1][0] == "c" and num(z[1]): return z[1][1]
        return None

    def assume(self, st, atom, truth):
        k = self.known(st, atom)
        if k is not None:
            return st if k == truth else None
        s = st.copy(); s.facts[atom] = truth
        return s

    def split(self, st, v, n=None):
        """[(state, bool)] for the truth of value v."""
        t = self.truth(st, v)
        if t is not None: return [(st, t)]
        atom, pol = (v[1], v[2]) if v[0] == "b" else (("nz", v), True)
        out = []
        for tr in (True, False):
            s = self.assume(st, atom, tr == pol)
            if s is not None: out.append((s, tr))
        return out

    # ---- locations ----------------------------------------------------
    def vloc(self, n):
        if n["w"] in ("global", "slocal", "smember"): return ("g", n.get("q", n["name"]))
        return ("v", self.frames[-1], n["id"], n["name"])

    def deref(self, st, loc):
        seen = 0
        while seen < 6:
            v = st.env.get(loc)
            if v is not None and v[0] == "ref": loc = v[1]; seen += 1
            else: return loc
        return loc

    def read(self, st, loc):
        loc = self.deref(st, loc)
        r = self.H.read(self, st, loc)
        if r is not None: return r
        if loc in st.env: return st.env[loc]
        k = loc[0]
        if k == "f":
            e = (st.ep.get(("F", loc[2])), st.ep.get(("O", loc[1])))
            return ("i", loc, e) if e != (None, None) else ("i", loc)
        if k == "e":
            e = (st.ep.get(("E", loc[1])), st.ep.get("*E"))
            return ("i", loc, e) if e != (None, None) else ("i", loc)
        if k == "g":
            e = st.ep.get(("G", loc[1]))
            return ("i", loc, e) if e else ("i", loc)
        return ("i", loc)

    def write(self, st, loc, val, n):
        loc = self.deref(st, loc)
        if loc[0] == "e":
            for k in [k for k in st.env if k[0] == "e" and k[1] == loc[1] and k != loc]:
                if not (k[2][0] == "c" and loc[2][0] == "c" and k[2] != loc[2]): del st.env[k]
            st.ep[("E", loc[1])] = self.site(n)
        if loc[0] in ("f", "e"): st.ep["*W"] = self.site(n)
        st.env[loc] = val
        if loc[0] in ("v", "f"):   # sub-objects of a replaced value
            o = ("obj", loc)
            for k in [k for k in st.env if k[0] in ("f", "e") and k[1] == o]: del st.env[k]

    def havoc_obj(self, st, obj, n):
        """A non-const operation on an object: forget what is known inside it."""
        s = self.site(n)
        st.ep[("O", obj)] = s; st.ep[("E", obj)] = s
        for k in [k for k in st.env if k[0] in ("f", "e") and inside(k[1], obj)]: del st.env[k]

    def havoc_this(self, st, n):
        """A repository method on this: the members it may assign are known
        (Program.mods); everything else inside the object is forgotten."""
        o = ("this",); s = self.site(n)
        st.ep[("X", o)] = s; st.ep[("E", o)] = s
        own = self.P.repo_fields()
        for k in [k for k in st.env if k[0] in ("f", "e") and inside(k[1], o)]:
            if not (k[0] == "f" and k[1] == o and k[2] in own): del st.env[k]

    def lval(self, n, st):
        """[(state, loc)]"""
        k = n["k"]
        if k == "var": return [(st, self.deref(st, self.vloc(n)))]
        if k == "mem":
            out = []
            for s, o in self.objval(n["b"], st, n.get("arrow")):
                out.append((s, self.deref(s, ("f", o, n["f"]))))
            return out
        if k == "idx":
            out = []
            for s, b in self.ev(n["b"], st):
                for s2, i in self.ev(n["i"], s): out.append((s2, ("e", b, i)))
            return out
        if k == "un" and n["op"] == "*":
            out = []
            for s, b in self.ev(n["e"], st):
                out.append((s, b[1]) if b[0] == "addr" else (s, ("e", b, ZERO)))
            return out
        if k == "un" and n["op"] in ("++", "--") and not n.get("post"):
            return [(s, l) for s, _ in self.ev(n, st) for (s, l) in self.lval(n["e"], s)]
        if k == "call" and n.get("op") == "[]":
            out = []
            for s, o in self.objval(n["obj"], st, False):
                for s2, i in self.ev(n["a"][0], s):
                    if not ("vector" in n.get("cls", "")): 
                        out.append((s2, ("e", o, i)))
                    else: out.append((s2, ("e", o, i)))
            return out
        if k == "call" and n.get("op") == "*" and n.get("obj"):
            return [(s, ("e", v, ZERO)) for s, v in self.ev(n["obj"], st)]
        if k == "call" and n.get("op") == "->" and n.get("obj"):
            return self.lval(n["obj"], st)
        if k == "cast": return self.lval(n["e"], st)
        if k == "assign":
            return [(s, l) for s, _ in self.ev(n, st) for (s, l) in self.lval(n["a"], s)]
        if k == "cond":
            out = []
            for s, b in self.cond(n["c"], st): out += self.lval(n["t"] if b else n["e"], s)
            return out
        # a call returning a reference, a temporary, ...
        return [(s, ("t", v)) for s, v in self.ev(n, st)]

    def objval(self, n, st, arrow):
        """Identity of the object denoted by n (pointee if arrow)."""
        if arrow:
            out = []
            for s, v in self.ev(n, st):
                out.append((s, ("obj", v[1]) if v[0] == "addr" else v))
            return out
        if n["k"] == "this": return [(st, ("this",))]
        if n["k"] == "call" and n.get("op") in ("->", "*") and n.get("obj") is not None and "SmartPtr" in n.get("fn", ""):
            return self.ev(n["obj"], st)
        if n["k"] == "un" and n["op"] == "*":
            return [(s, ("obj", v[1]) if v[0] == "addr" else v) for s, v in self.ev(n["e"], st)]
        if n["k"] in ("var", "mem", "idx", "cast") or (n["k"] == "call" and n.get("op") == "[]"):
            out = []
            for s, l in self.lval(n, st):
                out.append((s, l[1] if l[0] == "t" else (l[1] if l[0] == "e" and l[2] == ZERO and n["k"] != "idx" and not n.get("op") else ("obj", l))))
            return out
        return self.ev(n, st)

    # ---- expressions --------------------------------------------------
    def ev(self, n, st):
        """[(state, value)]"""
        if n is None: return [(st, UNK)]
        self.steps += 1
        k = n["k"]
        m = getattr(self, "e_" + k, None)
        if m: return m(n, st)
        # unknown expression: evaluate children for effects
        sts = [st]
        for c in kids(n):
            nx = []
            for s in sts: nx += [x for x, _ in self.ev(c, s)]
            sts = nx
        return [(s, ("x", k, self.site(n))) for s in sts]

    def e_int(self, n, st): return [(st, C(n["v"]))]
    def e_float(self, n, st): return [(st, C(n["v"]))]
    def e_bool(self, n, st): return [(st, C(int(n["v"])))]
    def e_null(self, n, st): return [(st, ZERO)]
    def e_zero(self, n, st): return [(st, ZERO)]
    def e_str(self, n, st): return [(st, ("str", n["v"]))]
    def e_enum(self, n, st): return [(st, C(n["v"]))]
    def e_this(self, n, st): return [(st, st.env.get(("this", self.frames[-1]), ("this",)))]
    def e_fnref(self, n, st): return [(st, ("fn", n.get("fn")))]
    def e_sizeof(self, n, st): return [(st, ("sizeof", n.get("t", "")))]
    def e_lambda(self, n, st): return [(st, ("lambda", self.site(n)))]

    def e_var(self, n, st):
        loc = self.vloc(n)
        if "[" in n.get("t", "") and "*" not in n["t"].split("[")[0]: 
            if loc not in st.env: return [(st, ("arr", loc))]
        t = n.get("t", "")
        v = self.read(st, loc)
        if v[0] == "i" and self.is_class(t) and not scalar_class(t):
            return [(st, ("obj", self.deref(st, loc)))]
        return [(st, v)]

    def is_class(self, t):
        t = t.replace("const ", "").replace("&", "").strip()
        return t in self.P.C or t.startswith("std::") and not t.startswith("std::size_t") or ("Bonmin::" + t) in self.P.C

    def e_mem(self, n, st):
        out = []
        for s, l in self.lval(n, st):
            v = self.read(s, l)
            t = n.get("t", "")
            if v[0] == "i" and "*" not in t and self.is_class(t) and not scalar_class(t): v = ("obj", l)
            out.append((s, v))
        return out

    def e_idx(self, n, st):
        return [(s, self.read(s, l)) for s, l in self.lval(n, st)]

    def e_cast(self, n, st):
        out = []
        for s, v in self.ev(n["e"], st):
            if n.get("ck") == "Dynamic":
                t = self.H_dyn(s, n, v)
                out += t
            else: out.append((s, v))
        return out
    def H_dyn(self, st, n, v):
        # dynamic_cast may fail
        t = self.truth(st, v)
        if t is False: return [(st, ZERO)]
        if v[0] == "new" and v[1] == ("clone",): return [(st, v)]
        a = ("dyn", n.get("ct", ""), v)
        out = []
        s1 = self.assume(st, ("nz", a), True)
        if s1: out.append((s1, v if v[0] != "c" else a))
        s2 = self.assume(st, ("nz", a), False)
        if s2: out.append((s2, ZERO))
        # a successful cast means non-null
        res = []
        for s, w in out:
            if w == v and w[0] not in ("new", "addr", "obj", "this"):
                s = self.assume(s, ("nz", v), True)
                if s is None: continue
            res.append((s, w))
        return res

    def e_un(self, n, st):
        op = n["op"]
        if op == "!":
            out = []
            for s, b in self.cond(n["e"], st): out.append((s, C(0 if b else 1)))
            return out
        if op == "&":
            out = []
            for s, l in self.lval(n["e"], st):
                if l[0] == "e" and l[2] != ZERO: out.append((s, ("op", "+", l[1], l[2])))
                elif l[0] == "e": out.append((s, l[1]))
                elif l[0] == "t": out.append((s, l[1]))
                else: out.append((s, ("addr", l)))
            return out
        if op in ("++", "--"):
            out = []
            for s, l in self.lval(n["e"], st):
                old = self.read(s, l)
                v = arith("+" if op == "++" else "-", old, ONE)
                s = s.copy()
                self.H.assign(self, s, n, l, v)
                self.write(s, l, v, n)
                out.append((s, old if n.get("post") else v))
            return out
        if op == "*":
            return [(s, self.read(s, l)) for s, l in self.lval(n, st)]
        out = []
        for s, v in self.ev(n["e"], st):
            if op == "-": out.append((s, C(-v[1]) if v[0] == "c" and num(v) else ("op", "-", ZERO, v)))
            elif op == "+": out.append((s, v))
            else: out.append((s, ("op", op, v)))
        return out

    def e_bin(self, n, st):
        op = n["op"]
        if op in ("&&", "||"):
            return [(s, C(1 if b else 0)) for s, b in self.cond(n, st)]
        out = []
        for s, a in self.ev(n["a"], st):
            for s2, b in self.ev(n["b"], s):
                if op == ",": out.append((s2, b)); continue
                out.append((s2, cmpval(op, a, b) if op in CMP else arith(op, a, b)))
        return out

    def e_assign(self, n, st):
        op = n["op"]
        out = []
        for s, v in self.ev(n["b"], st):
            for s2, l in self.lval(n["a"], s):
                if op != "=": v2 = arith(op[:-1], self.read(s2, l), v)
                else: v2 = v
                s3 = s2.copy()
                r = self.H.assign(self, s3, n, l, v2)     # a hook may name the value anew
                if r is not None: v2 = r
                self.write(s3, l, v2, n)
                out.append((s3, v2))
        return out

    def e_cond(self, n, st):
        out = []
        for s, b in self.cond(n["c"], st): out += self.ev(n["t"] if b else n["e"], s)
        return out

    def e_list(self, n, st):
        sts = [(st, ())]
        for a in n.get("a", []):
            sts = [(s2, vs + (v,)) for s, vs in sts for s2, v in self.ev(a, s)]
        return [(s, ("list", vs, self.site(n))) for s, vs in sts]

    def e_throw(self, n, st):
        if n.get("e") is None:
            ty = st.ts.get("#exc", "rethrow")
            self.sink[-1].append((st, ty, n)); return []
        for s, v in self.ev(n["e"], st):
            s = s.copy(); s.note(n.get("l"), "throw " + n.get("ct", "?"))
            self.sink[-1].append((s, n.get("ct", "?"), n))
        return []

    def e_new(self, n, st):
        out = []
        sts = [st]
        if n.get("n"): sts = [s for s, _ in self.ev(n["n"], st)]
        v = ("new", self.site(n), n["t"])
        for s in sts:
            s = s.copy()
            init = n.get("e")
            if init is not None and init.get("k") == "ctor":
                for s2, _ in self.e_ctor(init, s, v):
                    s2 = s2.copy(); self.H.new(self, s2, n, v); out.append((s2, v))
            else:
                for s2, _ in (self.ev(init, s) if init else [(s, None)]):
                    s2 = s2.copy(); self.H.new(self, s2, n, v); out.append((s2, v))
        return out

    def e_delete(self, n, st):
        out = []
        for s, v in self.ev(n["e"], st):
            s = s.copy(); self.H.delete(self, s, n, v); out.append((s, UNK))
        return out

    def args(self, n, st):
        """[(state, [values])]; reference parameters of class/scalar type get their
        value, the location is recoverable through self.arglocs."""
        sts = [(st, ())]
        how = n.get("how", "")
        for i, a in enumerate(n.get("a", [])):
            nx = []
            h = how[i] if i < len(how) else "v"
            for s, vs in sts:
                if h == "r" and a["k"] in ("var", "mem", "idx", "un", "call"):
                    for s2, l in self.lval(a, s):
                        nx.append((s2, vs + (("lref", l),)))
                else:
                    for s2, v in self.ev(a, s): nx.append((s2, vs + (v,)))
            sts = nx
        return sts

    def val_of(self, st, v):
        """Value of an argument that may be a reference."""
        if v[0] == "lref":
            l = v[1]
            return l[1] if l[0] == "t" else self.read(st, l)
        return v

    def e_ctor(self, n, st, target=None):
        if target is None and scalar_class(n.get("t", "") + n.get("cls", "")):
            a = [x for x in n.get("a", []) if not x.get("dflt")]
            if not a: return [(st, ZERO if "Ptr" in n.get("cls", "") else ("str", ""))]
            if len(a) == 1: return self.ev(a[0], st)
        out = []
        for s, vs in self.args(n, st):
            v = target or ("tmp", n.get("cls", "?"), self.site(n))
            if target is None and (n.get("copy") or n.get("move")) and vs:
                pv = self.val_of(s, vs[0])
                if vs[0][0] == "lref" and pv[0] == "i": pv = ("obj", vs[0][1])
                v = ("copy", pv)
            s = s.copy()
            r = self.H.call(self, s, n, v, vs)
            if r is not None:
                out += r; continue
            self.throws(s, n)
            f = self.P.target(n)
            if f is not None and self.inline_ok(f, n):
                out += [(s2, v) for s2, _ in self.inline(f, n, s, v, vs)]
                continue
            self.clobber_args(s, n, vs)
            self.H.after_call(self, s, n, v, vs, v)
            out.append((s, v))
        return out

    def throws(self, st, n):
        for ty in self.H.may_throw(self, st, n):
            s = st.copy(); s.note(n.get("l"), "%s throws %s" % (n.get("name"), ty))
            self.sink[-1].append((s, ty, n))

    def e_call(self, n, st):
        op = n.get("op"); fn = n.get("fn", ""); name = n.get("name", "")
        # smart pointer plumbing
        if "SmartPtr" in fn or "SimpleReferencedPtr" in fn:
            if op in ("->", "*", "()") and n.get("obj") is not None: return self.ev(n["obj"], st)
            if op == "=":
                out = []
                for s, v in self.ev(n["a"][0], st):
                    for s2, l in self.lval(n["obj"], s):
                        s2 = s2.copy(); self.H.assign(self, s2, n, l, v); self.write(s2, l, v, n); out.append((s2, v))
                return out
            if name.startswith("operator ") and n.get("obj") is not None: return self.ev(n["obj"], st)
        if name in ("GetRawPtr", "ConstPtr") and len(n.get("a", [])) == 1: return self.ev(n["a"][0], st)
        if name in ("IsValid", "IsNull") and len(n.get("a", [])) == 1:
            out = []
            for s, v in self.ev(n["a"][0], st):
                for s2, b in self.split(s, v): out.append((s2, C(int(b == (name == "IsValid")))))
            return out
        if op in ("==", "!=") and ("SmartPtr" in fn or "Ipopt::operator" in fn or "basic_string" in fn or fn.startswith("std::operator") or "Ptr" in n.get("t", "")):
            a, b = (n["a"] if n.get("obj") is None else [n["obj"]] + n["a"])[:2]
            out = []
            for s, x in self.ev(a, st):
                for s2, y in self.ev(b, s): out.append((s2, cmpval(op, x, y)))
            return out
        if "basic_string" in fn and op in ("=", "+=") and n.get("obj") is not None:
            out = []
            for s, v in self.ev(n["a"][0], st):
                for s2, l in self.lval(n["obj"], s):
                    if op == "+=": v2 = strcat(self.read(s2, l), v)
                    else: v2 = v
                    s2 = s2.copy(); self.H.assign(self, s2, n, l, v2); self.write(s2, l, v2, n); out.append((s2, v2))
            return out
        if op == "+" and "operator+" in fn and len(n.get("a", [])) == 2 and "basic_string" in (n.get("t", "") + fn + n.get("m", "")) or (op == "+" and fn == "std::operator+"):
            out = []
            for s, x in self.ev(n["a"][0], st):
                for s2, y in self.ev(n["a"][1], s): out.append((s2, strcat(x, y)))
            return out
        if "basic_string" in fn and name in ("c_str", "data"): return self.ev(n["obj"], st)
        if op == "[]" and n.get("obj") is not None:
            return [(s, self.read(s, l)) for s, l in self.lval(n, st)]
        # object and arguments
        objs = [(st, None)]
        if n.get("obj") is not None:
            objs = self.objval(n["obj"], st, n.get("arrow", False))
            objs = [(s, ("obj", o[1]) if o[0] == "addr" else o) for s, o in objs]
        elif n.get("cal") is not None:
            objs = [(s, v) for s, v in self.ev(n["cal"], st)]
        out = []
        for s, o in objs:
            for s2, vs in self.args(n, s):
                out += self.do_call(n, s2.copy(), o, vs)
        return out

    def do_call(self, n, s, o, vs):
        fn = n.get("fn", ""); name = n.get("name", "")
        if op_assign(n) and n.get("obj") is not None and n.get("a"):
            # class assignment: treat as copying the value into the location
            pass
        r = self.H.call(self, s, n, o, vs)
        if r is not None: return r
        if n.get("noreturn") or name in ("exit", "abort", "__assert_fail"): return []
        self.throws(s, n)
        f = self.P.target(n)
        if f is not None and self.inline_ok(f, n):
            res = self.inline(f, n, s, o, vs)
            out = []
            for s2, v in res:
                self.H.after_call(self, s2, n, o, vs, v)
                out.append((s2, v))
            return out
        val = self.opaque(n, s, o, vs, f)
        self.H.after_call(self, s, n, o, vs, val)
        return [(s, val)]

    def opaque(self, n, s, o, vs, f):
        name = n.get("name", ""); fn = n.get("fn", "")
        plain = tuple(self.val_of(s, v) for v in vs)
        pure = False
        if f is None:
            if n.get("cm") or name in PURE_EXT: pure = True
        elif n.get("cm") and not any(h in "rp" for h in n.get("how", "")): pure = True
        if f is not None:
            fs = self.P.targets(n)
            ms = set()
            for g in fs: ms |= self.P.mods(g)
            if ms:
                st_ = self.site(n)
                for m in ms:
                    b = m.rstrip("*")
                    if m.endswith("*"): continue
                    s.ep[("F", b)] = st_
                drop = {m for m in ms if not m.endswith("*")}
                for k in [k for k in s.env if k[0] == "f" and k[2] in drop]: del s.env[k]
                s.ep["*W"] = st_
        if pure:
            if o is None: key = ()
            else:
                key = (o, s.ep.get(("O", o)), s.ep.get("*O"))
                if ("X", o) in s.ep: key = (o, (key[1], s.ep[("X", o)]), key[2])
            w = s.ep.get("*W") if f is not None else None
            return ("pure", fn, key, plain, w) if w is not None else ("pure", fn, key, plain)
        if o == ("this",) and f is not None:
            self.havoc_this(s, n)
        elif o is not None and not n.get("cm"):
            self.havoc_obj(s, o, n)
        self.clobber_args(s, n, vs)
        if op_assign(n) and o is not None and len(plain) == 1:
            return ("copy", plain[0])
        if self.H.rich: return ("call", fn, self.site(n), (o,) if o is not None else (), plain)
        return ("call", fn, self.site(n))

    def clobber_args(self, s, n, vs):
        how = n.get("how", "")
        for i, v in enumerate(vs):
            h = how[i] if i < len(how) else "v"
            if h == "r" and v[0] == "lref":
                l = v[1]
                if l[0] != "t":
                    nv = ("out", n.get("fn", ""), i, self.site(n))
                    # scalars get a fresh value, objects a fresh epoch
                    old = self.read(s, l)
                    self.havoc_obj(s, ("obj", l), n)
                    if l[0] == "v" and s.env.get(l) is None and old[0] == "i":
                        s.env[l] = nv if not self.objlike(l, n, i) else old
                    else: s.env[l] = nv
                    if l[0] == "f": s.ep["*W"] = self.site(n)
                else: self.havoc_obj(s, l[1], n)
            elif h == "p":
                if v[0] == "addr":
                    l = self.deref(s, v[1])
                    s.env[l] = ("out", n.get("fn", ""), i, self.site(n))
                    self.havoc_obj(s, ("obj", l), n)
                elif v[0] != "c":
                    self.havoc_obj(s, root(v), n)
                    if root(v) != v: self.havoc_obj(s, v, n)

    def objlike(self, l, n, i):
        return False

    # ---- inlining -----------------------------------------------------
    def size(self, f):
        k = f["key"]
        if k not in self._size:
            self._size[k] = sum(1 for _ in walk(f.get("b"))) if f.get("b") else 10 ** 6
        return self._size[k]

    def trivial(self, f):
        """A getter or setter: a handful of nodes and no calls out."""
        k = f["key"]
        if k not in self._trivial:
            self._trivial[k] = self.size(f) <= 14 and not any(True for c in self.P.calls(f) if self.P.target(c) and self.size(self.P.target(c)) > 14)
        return self._trivial[k]

    def inline_ok(self, f, n):
        if f.get("b") is None or len(self.frames) > self.H.max_inline: return False
        if f["key"] in self.fstack: return False
        w = self.H.want_inline(self, f, n)
        if w is not None: return w
        return self.trivial(f)

    def inline(self, f, n, s, o, vs):
        self.funcs_seen.add(f["key"])
        frame = "%s/%s" % (self.frames[-1], self.site(n)[1])
        s = s.copy()
        for p, v in zip(f["p"], vs):
            loc = ("v", frame, p["id"], p["name"])
            if v[0] == "lref":
                if p["ct"].rstrip().endswith("&"): s.env[loc] = ("ref", v[1]) if v[1][0] != "t" else v[1][1]
                else: s.env[loc] = self.read(s, v[1]) if v[1][0] != "t" else v[1][1]
            elif p["ct"].rstrip().endswith("&") and v[0] in ("i", "obj") and len(v) == 2 and v[1][0] in ("v", "f", "e") and self.is_class(p["ct"]) and not scalar_class(p["ct"]): s.env[loc] = ("ref", v[1])
            else: s.env[loc] = v
        if o is not None: s.env[("this", frame)] = o
        self.frames.append(frame); self.fstack.append(f["key"])
        sv = (self.brk, self.cont)
        self.brk, self.cont = [], []
        self.rets.append([])
        sts = [s]
        if f.get("ctor"): sts = self.ctor_inits(f, sts)
        sts = self.x(f["b"], sts)
        rs = self.rets.pop() + [(q, UNK) for q in sts]
        self.brk, self.cont = sv
        self.frames.pop(); self.fstack.pop()
        out, seen = [], set()
        for q, v in rs:
            for k in [k for k in q.env if (k[0] == "v" and k[1] == frame) or k == ("this", frame)]: del q.env[k]
            kk = (q.full(), v)
            if kk in seen: continue
            seen.add(kk); out.append((q, v))
        return out

    def ctor_inits(self, f, sts):
        for i in f.get("inits", ()):
            nx = []
            for s in sts:
                if i.get("f"):
                    this = s.env.get(("this", self.frames[-1]), ("this",))
                    e = i.get("e")
                    loc = ("f", this, i["f"])
                    if e is not None and e.get("k") == "ctor" and not scalar_class(e.get("t", "") + e.get("cls", "")):
                        for s2, _ in self.e_ctor(e, s, ("obj", loc)):
                            s2 = s2.copy(); self.H.assign(self, s2, {"k": "init", "l": i["l"], "e": e}, loc, ("ctorval", tuple(txt(a) for a in e.get("a", []))))
                            nx.append(s2)
                    else:
                        for s2, v in (self.ev(e, s) if e else [(s, UNK)]):
                            s2 = s2.copy(); self.H.assign(self, s2, {"k": "init", "l": i["l"], "e": e}, loc, v)
                            self.write(s2, loc, v, i if "k" in i else e or f["b"])
                            nx.append(s2)
                elif i.get("e") is not None and i["e"].get("k") == "ctor":
                    this = s.env.get(("this", self.frames[-1]), ("this",))
                    nx += [s2 for s2, _ in self.e_ctor(i["e"], s, this)]
                else: nx.append(s)
            sts = nx
        return sts

    # ---- conditions ---------------------------------------------------
    def cond(self, n, st):
        """[(state, bool)]"""
        if n is None: return [(st, True)]
        k = n["k"]
        if k == "bin" and n["op"] == "&&":
            out = []
            for s, b in self.cond(n["a"], st):
                if b: out += self.cond(n["b"], s)
                else: out.append((s, False))
            return out
        if k == "bin" and n["op"] == "||":
            out = []
            for s, b in self.cond(n["a"], st):
                if b: out.append((s, True))
                else: out += self.cond(n["b"], s)
            return out
        if k == "un" and n["op"] == "!":
            return [(s, not b) for s, b in self.cond(n["e"], st)]
        if k == "cast" and n.get("ck") != "Dynamic": return self.cond(n["e"], st)
        out = []
        for s, v in self.ev(n, st):
            sp = self.split(s, v, n)
            for s2, b in sp:
                if len(sp) > 1:
                    if s2 is s: s2 = s.copy()
                    a = v[1] if v[0] == "b" else ("nz", v)
                    if a not in self.atomtxt: self.atomtxt[a] = txt(n)
                    s2.note(n.get("l"), "%s is %s" % (txt(n), "true" if b else "false"))
                self.cv = v
                self.H.branch(self, s2, n, b)
                out.append((s2, b))
        return out

    # ---- slicing --------------------------------------------------------
    def slice_of(self, f):
        k = f["key"]
        if k in self._slices: return self._slices[k]
        CTRL = ("if", "for", "while", "do", "switch", "rfor", "try")
        matter = set()      # ids of nodes containing something relevant or an exit
        parent_ctrl = {}    # id(node) -> list of enclosing control nodes
        assigns = []        # (vars assigned, vars read, enclosing control nodes, node)
        def vars_of(n):
            out = set()
            for m in walk(n):
                if m["k"] == "var": out.add(("v", m["id"]))
                elif m["k"] == "mem": out.add(("f", m["f"]))
                elif m["k"] == "call":
                    t = self.P.target(m)
                    if t is not None and self.size(t) < 60:
                        for q in walk(t.get("b")):
                            if q["k"] == "mem": out.add(("f", q["f"]))
            return out
        def targets(n):
            out = set()
            k = n["k"]
            lv = None
            if k == "assign": lv = n["a"]
            elif k == "un" and n["op"] in ("++", "--"): lv = n["e"]
            elif k == "call" and n.get("op") in ("=", "+=", "-=") and n.get("obj") is not None: lv = n["obj"]
            if lv is not None:
                x = lv
                while x is not None and x["k"] not in ("var", "mem"):
                    x = x.get("b") or x.get("e") or x.get("obj") or None
                if x is not None: out.add(("v", x["id"]) if x["k"] == "var" else ("f", x["f"]))
            if k in ("call", "ctor"):
                for a, h in zip(n.get("a", []), n.get("how", "")):
                    if h in "rp":
                        for m in walk(a):
                            if m["k"] == "var": out.add(("v", m["id"]))
                            elif m["k"] == "mem": out.add(("f", m["f"]))
                if k == "call" and n.get("obj") is not None and not n.get("cm"):
                    o = peel(n["obj"])
                    if o is not None and o["k"] == "var": out.add(("v", o["id"]))
                    elif o is not None and o["k"] == "mem": out.add(("f", o["f"]))
                for g in self.P.targets(n):
                    for m in self.P.mods(g):
                        out.add(("f", m.rstrip("*")))
            return out
        I = set()
        def visit(n, ctrls, loops):
            k = n["k"]
            m = False
            if k in ("return", "throw", "goto") or n.get("noreturn"): m = True
            elif k == "break" or k == "continue": m = True
            elif self.H.matters(self, n): m = True; I.update(vars_of(n))
            elif k in ("call", "ctor"):
                t = self.P.target(n)
                if t is not None and t.get("b") is not None and self.H.want_inline(self, t, n) and not self.trivial(t): m = True
                for q in self.H.may_throw(self, None, n) or (): m = True
            if k == "return": I.update(vars_of(n))
            tg = targets(n)
            if tg: assigns.append((tg, n, list(ctrls)))
            if k == "decl":
                for v in n["v"]:
                    if v.get("e"): assigns.append(({("v", v["id"])}, v["e"], list(ctrls)))
            sub = ctrls + [n] if k in CTRL or k == "cond" else ctrls
            for c in kids(n):
                if visit(c, sub, loops): m = True
            if m: matter.add(id(n))
            return m
        visit(f["b"], [], [])
        def addc(c):
            ch = False
            if c["k"] in ("if", "while", "do", "for", "switch", "cond") and c.get("c") is not None:
                v = vars_of(c["c"])
                if not v <= I: I.update(v); ch = True
            return ch
        for n in walk(f["b"]):
            if id(n) in matter and n["k"] in CTRL + ("cond",): addc(n)
        changed = True
        while changed:
            changed = False
            for tg, e, ctrls in assigns:
                if tg & I:
                    v = vars_of(e)
                    if not v <= I: I.update(v); changed = True
                    for c in ctrls:
                        if addc(c): changed = True
        self._slices[k] = (matter, I, targets)
        return self._slices[k]

    def skippable(self, f, n):
        c = n.get("_skip")
        if c is not None and c[0] is self: return c[1]
        matter, I, targets = self.slice_of(f)
        r = id(n) not in matter
        if r:
            for m in walk(n):
                if targets(m) & I: r = False; break
        n["_skip"] = (self, r)
        return r

    # ---- statements ---------------------------------------------------
    def x(self, n, sts):
        if n is None or not sts: return sts
        k = n["k"]
        if self.H.slice and k not in ("block", "decl", "empty", "return", "break", "continue") and self.fstack:
            f = self.P.F.get(self.fstack[-1])
            if f is not None and self.skippable(f, n):
                self.skipped += 1
                return self.merge([self.havoc_loop(n, s) for s in sts])
        m = getattr(self, "x_" + k, None)
        if m: return m(n, sts)
        out = []
        for s in sts: out += [q for q, _ in self.ev(n, s)]
        return self.merge(out)

    def x_block(self, n, sts):
        for c in n["s"]:
            if not sts: break
            sts = self.x(c, sts)
        return self.leave(n["s"], sts) if self.H.scoped else sts

    scopes = {}
    def leave(self, n, sts):
        """Forget the variables declared in a scope that ends."""
        if not sts: return sts
        ids = self.scopes.get(id(n))
        if ids is None:
            if isinstance(n, list): ids = {v["id"] for c in n if c and c["k"] == "decl" for v in c["v"]}
            else: ids = {v["id"] for c in walk(n) if c["k"] == "decl" for v in c["v"]}
            self.scopes[id(n)] = ids
            self.scopes[("ref", id(n))] = n
        if not ids: return sts
        fr = self.frames[-1]
        for s in sts:
            for k in [k for k in s.env if k[0] == "v" and k[1] == fr and k[2] in ids]: del s.env[k]
        return self.merge(sts)

    def x_empty(self, n, sts): return sts

    def x_if(self, n, sts):
        out = []
        if n.get("init"): sts = self.x(n["init"], sts)
        if n.get("cv"): sts = self.x(n["cv"], sts)
        T, E = [], []
        for s in sts:
            for q, b in self.cond(n["c"], s): (T if b else E).append(q)
        T = self.merge(T); E = self.merge(E)
        return self.merge(self.x(n["t"], T) + (self.x(n["e"], E) if n.get("e") else E))

    def x_decl(self, n, sts):
        for v in n["v"]:
            nx = []
            loc = ("g", v.get("q", v["name"])) if v["w"] == "slocal" else ("v", self.frames[-1], v["id"], v["name"])
            ref = v["ct"].rstrip().endswith("&")
            for s in sts:
                e = v.get("e")
                if v["w"] == "slocal":
                    nx.append(s); continue
                if ref and e is not None:
                    for q, l in self.lval(e, s):
                        q = q.copy(); q.env[loc] = ("ref", l) if l[0] != "t" else l[1]; nx.append(q)
                    continue
                if e is None:
                    q = s.copy(); q.env[loc] = ("uninit", loc); nx.append(q)
                    continue
                if e.get("k") == "ctor" and not scalar_class(v["ct"]):
                    a = e.get("a", [])
                    for q, val in self.e_ctor(e, s, ("obj", loc)):
                        q = q.copy()
                        q.env.pop(loc, None)
                        self.H.decl(self, q, v, loc, val); nx.append(q)
                    continue
                for q, val in self.ev(e, s):
                    q = q.copy(); q.env[loc] = val
                    self.H.decl(self, q, v, loc, val)
                    nx.append(q)
            sts = self.merge(nx)
        return sts

    def x_return(self, n, sts):
        for s in sts:
            if n.get("e") is None:
                s = s.copy(); s.note(n.get("l"), "return"); self.rets[-1].append((s, UNK))
            else:
                for q, v in self.ev(n["e"], s):
                    q = q.copy()
                    if v[0] == "b":
                        for q2, b in self.split(q, v):
                            q2 = q2.copy(); q2.note(n.get("l"), "return %s (%s)" % (txt(n["e"]), b)); q2.ts["#rl"] = n.get("l", 0); self.rets[-1].append((q2, C(int(b))))
                        continue
                    q.note(n.get("l"), "return " + txt(n["e"])); self.H.ret(self, q, n, v); self.rets[-1].append((q, v))
        return []

    def x_break(self, n, sts): self.brk[-1].extend(sts); return []
    def x_continue(self, n, sts): self.cont[-1].extend(sts); return []
    def x_goto(self, n, sts): raise Broken("goto at line %s is not modelled" % n.get("l"))
    def x_label(self, n, sts): return self.x(n["s"], sts)
    def x_case(self, n, sts): return self.x(n["s"], sts)
    def x_default(self, n, sts): return self.x(n["s"], sts)

    def x_switch(self, n, sts):
        body = n["b"]
        items = body["s"] if body and body["k"] == "block" else [body]
        # flatten nested case labels: list of (labels, stmt)
        flat = []
        for it in items:
            labels = []
            while it is not None and it["k"] in ("case", "default"):
                labels.append(("d", None) if it["k"] == "default" else ("c", it["v"], it.get("v2")))
                it = it["s"]
            flat.append((labels, it))
        out = []
        self.brk.append([])
        entry = {}
        for s in sts:
            for q, v in self.ev(n["c"], s):
                rest = [q]
                dflt = None
                for i, (labels, _) in enumerate(flat):
                    for L in labels:
                        if L[0] == "d": dflt = i; continue
                        nr = []
                        for r in rest:
                            for r2, cv in self.ev(L[1], r):
                                val = cmpval("==", v, cv)
                                for r3, b in self.split(r2, val):
                                    if b:
                                        if r3 is r2: r3 = r3.copy()
                                        r3.note(L[1].get("l"), "%s == %s" % (txt(n["c"]), txt(L[1])))
                                        self.H.branch(self, r3, n["c"], True)
                                        entry.setdefault(i, []).append(r3)
                                    else: nr.append(r3)
                        rest = nr
                for r in rest:
                    if dflt is not None:
                        r = r.copy(); r.note(n.get("l"), "%s: default" % txt(n["c"]))
                        entry.setdefault(dflt, []).append(r)
                    else: out.append(r)
        cur = []
        for i, (_, st) in enumerate(flat):
            cur = self.merge(cur + entry.get(i, []))
            if cur: cur = self.x(st, cur)
        return self.merge(out + cur + self.brk.pop())

    def loop_mods(self, n):
        key = id(n)
        if key in self._loopmods: return self._loopmods[key]
        locs, fields, anycall, elems = set(), set(), False, False
        def lv(x):
            nonlocal elems
            x = x if x["k"] == "var" else x
            deref = False
            while x is not None and x["k"] not in ("var", "mem"):
                deref = True
                x = x.get("b") or x.get("e") or x.get("obj") or (x.get("a") if isinstance(x.get("a"), dict) else None)
                if isinstance(x, list): x = x[0] if x else None
            if deref: elems = True
            if x is None: return
            if x["k"] == "var":
                if not deref: locs.add(x["id"])
            elif not deref: fields.add(x["f"])
        for m in walk(n):
            k = m["k"]
            if k == "assign": lv(m["a"])
            elif k == "un" and m["op"] in ("++", "--"): lv(m["e"])
            elif k in ("call", "ctor"):
                if m.get("op") in ("=", "+=", "-=", "++", "--") and m.get("obj") is not None: lv(m["obj"])
                for a, h in zip(m.get("a", []), m.get("how", "")):
                    if h == "r": lv(a)
                    elif h == "p":
                        elems = True
                        if a["k"] == "un" and a["op"] == "&": lv(a["e"])
                if k == "call" and not m.get("cm"): anycall = True
                for g in self.P.targets(m):
                    fields |= {f for f in self.P.mods(g) if not f.endswith("*")}
        self._loopmods[key] = (locs, fields, anycall, elems)
        return self._loopmods[key]

    def havoc_loop(self, n, st, keep=()):
        locs, fields, anycall, elems = self.loop_mods(n)
        s = st.copy()
        site = self.site(n)
        fr = self.frames[-1]
        for k in list(s.env):
            if k in keep: continue
            if k[0] == "v" and k[1] == fr and k[2] in locs:
                v = s.env[k]
                if v[0] == "ref":
                    t = v[1]
                    if t not in keep: s.env[t] = ("lv", site, t)
                else: s.env[k] = ("lv", site, k[3])
            elif k[0] == "f" and k[2] in fields and k[2] not in keep: del s.env[k]
            elif k[0] == "e" and (elems or anycall): del s.env[k]
        for x in self.loop_vars(n):
            loc = ("v", fr, x[0], x[1])
            if x[0] in locs and loc not in s.env and loc not in keep: s.env[loc] = ("lv", site, x[1])
        for f in fields:
            if f not in keep: s.ep[("F", f)] = site
        if elems or anycall: s.ep["*E"] = site
        if anycall: s.ep["*O"] = site; s.ep["*W"] = site
        return s

    def loop_invariant(self, n, h, ends):
        """Locations of the havoc set that no path back to the loop head changes."""
        locs, fields, _, _ = self.loop_mods(n)
        site = self.site(n)
        keep = set()
        for k, v in h.env.items():
            if k[0] == "v" and v[0] == "lv" and v[1] == site and all(e.env.get(k) == v for e in ends): keep.add(k)
            elif k[0] == "f" and v[0] == "lv" and v[1] == site and all(e.env.get(k) == v for e in ends): keep.add(k)
        for f in fields:
            if all(e.ep.get(("F", f)) == site and not any(k[0] == "f" and k[2] == f for k in e.env) for e in ends): keep.add(f)
        return keep

    def loop_vars(self, n):
        seen = set()
        for m in walk(n):
            if m["k"] == "var" and m["w"] in ("param",): seen.add((m["id"], m["name"]))
        return seen

    def run_loop(self, n, sts, cond, body, inc, post=False, pre=None):
        out = []
        for st in self.merge(sts):
            h = self.havoc_loop(n, st)
            mark = self.H.snapshot(self)
            nsink, nret, nb, nc = len(self.sink[-1]), len(self.rets[-1]), [len(x) for x in self.brk], [len(x) for x in self.cont]
            self.pre_loop = st
            self.H.loop(self, h, n)
            res, ends = self.loop_pass(n, h, cond, body, inc, post, pre)
            keep = self.loop_invariant(n, h, ends)
            if keep:
                # forget the probing pass and redo it with the sharper head state
                self.H.restore(self, mark)
                del self.sink[-1][nsink:]; del self.rets[-1][nret:]
                for x, l in zip(self.brk, nb): del x[l:]
                for x, l in zip(self.cont, nc): del x[l:]
                h = self.havoc_loop(n, st, keep)
                self.pre_loop = st
                self.H.loop(self, h, n)
                res, ends = self.loop_pass(n, h, cond, body, inc, post, pre)
            out += self.H.loop_exit(self, res, n)
        if self.H.scoped:
            site = self.site(n)
            for s in out:
                for k in [k for k in s.env if k[0] == "e"]: del s.env[k]
                if self.H.keep is not None:
                    for a in [a for a in s.facts if not self.H.keep(a)]: del s.facts[a]
                s.ep = HD({"*O": site, "*E": site, "*W": site})
            out = self.leave(n, out)
        return self.merge(out)

    def loop_pass(self, n, h, cond, body, inc, post, pre):
        out, allends = [], []
        seen, work = set(), [h]
        while work:
            s = work.pop()
            key = s.ts.h
            if key in seen: continue
            seen.add(key)
            self.H.head(self, s, n)
            if len(seen) > 60: raise Broken("loop at line %s does not stabilise" % n.get("l"))
            B = []
            if post: B = [s]
            else:
                for q, b in self.cond(cond, s):
                    if b: B.append(q)
                    else: out.append(q)
            if pre: B = pre(B)
            self.brk.append([]); self.cont.append([])
            ends = self.x(body, self.merge(B)) + self.cont.pop()
            out += self.brk.pop()
            if post:
                nx = []
                for q in ends:
                    for r, b in self.cond(cond, q):
                        if b: nx.append(r)
                        else: out.append(r)
                ends = nx
            if inc is not None:
                nx = []
                for q in ends: nx += [r for r, _ in self.ev(inc, q)]
                ends = nx
            ends = self.merge(ends)
            for e in ends: self.H.iter_end(self, e, n)
            allends += ends
            for e in ends:
                w = h.copy(); w.ts = HD(e.ts); w.trace = e.trace
                work.append(w)
        return out, allends

    def x_for(self, n, sts):
        if n.get("init"): sts = self.x(n["init"], sts)
        return self.run_loop(n, sts, n.get("c"), n.get("b"), n.get("inc"))
    def x_while(self, n, sts): return self.run_loop(n, sts, n.get("c"), n.get("b"), None)
    def x_do(self, n, sts): return self.run_loop(n, sts, n.get("c"), n.get("b"), None, post=True)
    def x_rfor(self, n, sts):
        nx = []
        for s in sts: nx += [q for q, _ in self.ev(n["r"], s)]
        def pre(B):
            out = []
            for s in B:
                s = s.copy()
                for v in n["v"]["v"]:
                    s.env[("v", self.frames[-1], v["id"], v["name"])] = ("lv", self.site(n), v["name"])
                out.append(s)
            return out
        cond = {"k": "rfcond", "l": n.get("l")}
        return self.run_loop(n, nx, cond, n.get("b"), None, pre=pre)

    def x_try(self, n, sts):
        self.sink.append([])
        ok = self.x(n["b"], sts)
        thrown = self.sink.pop()
        for s, ty, node in thrown:
            done = False
            for h in n["h"]:
                if catches(self.P, h["ct"], ty):
                    q = s.copy(); q.note(h["l"], "caught as " + h["ct"])
                    q.ts["#exc"] = ty
                    r = self.x(h["b"], [q])
                    for z in r: z.ts.pop("#exc", None)
                    ok += r
                    done = True
                    break
            if not done: self.sink[-1].append((s, ty, node))
        return self.merge(ok)

    # ---- merging -------------------------------------------------------
    def wanted(self, atom):
        r = self._wanted.get(atom)
        if r is None:
            if self.H.keep is None or self.H.keep(atom): r = True
            else:
                t = self.atomtxt.get(atom)
                r = t is not None and self.repeat.get(t, 0) > 1
            self._wanted[atom] = r
        return r

    def merge(self, sts):
        if len(sts) < 2: return sts
        seen, out = set(), []
        if len(sts) < 8:
            for s in sts:
                k = s.full()
                if k in seen: continue
                seen.add(k); out.append(s)
            return out
        g = {}
        if self.H.keep is not None:
            for s in sts:
                k = (s.key(), frozenset(x for x in s.facts.items() if self.wanted(x[0])), self.H.keepkey(s))
                g.setdefault(k, []).append(s)
        else:
            for s in sts:
                k = s.full()
                if k in seen: continue
                seen.add(k); out.append(s)
            if len(out) > 24:
                for s in out: g.setdefault((s.key(), self.H.keepkey(s)), []).append(s)
        if g:
            out = []
            for ss in g.values():
                if len(ss) == 1: out.append(ss[0]); continue
                f = dict(ss[0].facts)
                for s in ss[1:]:
                    f = {k: v for k, v in f.items() if s.facts.get(k) == v}
                q = ss[0].copy(); q.facts = HD(f); out.append(q)
        if len(out) > self.H.cap:
            self.widened += 1
            g = {}
            for s in out: g.setdefault((s.ts.h, self.H.keepkey(s)), []).append(s)
            out = []
            for ss in g.values(): out.append(self.join(ss))
        return out

    def join(self, ss):
        if len(ss) == 1: return ss[0]
        q = ss[0].copy()
        f, env, ep = dict(q.facts), dict(q.env), dict(q.ep)
        for s in ss[1:]:
            f = {k: v for k, v in f.items() if s.facts.get(k) == v}
            for k in list(env):
                if s.env.get(k) != env[k]: env[k] = ("join", k)
            for k in s.env:
                if k not in env: env[k] = ("join", k)
            for k in set(ep) | set(s.ep):
                if ep.get(k) != s.ep.get(k): ep[k] = "join"
        for k in [k for k in f if mentions_join(k)]: del f[k]
        q.facts, q.env, q.ep = HD(f), HD(env), HD(ep)
        return q

    def count_atoms(self, f):
        """How often each branch condition is written in f and the helpers it may inline."""
        cnt, todo, seen = {}, [(f, 0)], set()
        while todo:
            g, d = todo.pop()
            if g["key"] in seen: continue
            seen.add(g["key"])
            for t in atoms_of(g): cnt[t] = cnt.get(t, 0) + 1
            if d < self.H.max_inline:
                for c in self.P.calls(g):
                    h = self.P.target(c)
                    if h is not None and h.get("b") is not None:
                        w = self.H.want_inline(self, h, c)
                        if w or (w is None and self.trivial(h)): todo.append((h, d + 1))
        return cnt

    # ---- entry ----------------------------------------------------------
    def run(self, f, st=None, this=("this",)):
        """[(kind, state, value)] with kind in ret, throw."""
        self.funcs_seen.add(f["key"])
        st = st or St()
        self.fstack = [f["key"]]; self.frames = ["m"]
        if self.H.keep is not None: self.repeat = self.count_atoms(f)
        self.rets = [[]]; self.brk = []; self.cont = []; self.sink = [[]]
        for p in f["p"]:
            loc = ("v", "m", p["id"], p["name"])
            if loc not in st.env and not (p["ct"].rstrip().endswith("&") or (self.is_class(p["ct"]) and not scalar_class(p["ct"]))):
                st.env[loc] = ("p", p["name"])
        sts = [st]
        if f.get("ctor"): sts = self.ctor_inits(f, sts)
        sts = self.x(f["b"], sts)
        out = [("ret", s, v) for s, v in self.rets[0]]
        out += [("ret", s, UNK) for s in sts]
        out += [("throw", s, ("exc", ty)) for s, ty, _ in self.sink[0]]
        self.paths += len(out)
        return out

CMP = {"<", ">", "<=", ">=", "==", "!="}

def num(v): return v[0] == "c" and isinstance(v[1], (int, float))

def root(v):
    """Base object of a pointer expression p + k."""
    while v[0] == "op" and v[1] in ("+", "-") and len(v) == 4: v = v[2]
    return v

def inside(v, obj):
    while True:
        if v == obj: return True
        if v[0] == "obj" and v[1][0] == "f": v = v[1][1]
        elif v[0] == "i" and False: v = v
        else: return False

def strcat(a, b):
    if a[0] == "str" and b[0] == "str": return ("str", a[1] + b[1])
    return ("cat", a, b)

def op_assign(n): return n.get("op") == "="

def cmpval(op, a, b):
    neg = False
    if op == "!=": op, neg = "==", True
    elif op == ">": op, a, b = "<", b, a
    elif op == ">=": op, neg = "<", True
    elif op == "<=": op, a, b, neg = "<", b, a, True
    if op == "==":
        if a[0] == "b" and b[0] == "c" and b[1] in (0, 1): return a if (b[1] == 1) != neg else ("b", a[1], not a[2])
        if b == ZERO and a[0] != "c": at, neg = ("nz", a), not neg
        elif a == ZERO and b[0] != "c": at, neg = ("nz", b), not neg
        else:
            x, y = sorted((a, b), key=repr)
            at = ("eq", x, y)
            if a[0] == "c" and b[0] == "c": return C(int((a[1] == b[1]) != neg))
            if a[0] == "str" and b[0] == "str": return C(int((a[1] == b[1]) != neg))
    else:
        at = ("lt", a, b)
        if num(a) and num(b): return C(int((a[1] < b[1]) != neg))
    return ("b", at, not neg)

def arith(op, a, b):
    if num(a) and num(b):
        x, y = a[1], b[1]
        try:
            if op == "+": return C(x + y)
            if op == "-": return C(x - y)
            if op == "*": return C(x * y)
            if op == "/" and y != 0: return C(x // y if isinstance(x, int) and isinstance(y, int) else x / y)
            if op == "%" and y != 0: return C(x % y)
            if op == "&": return C(x & y)
            if op == "|": return C(x | y)
            if op == "<<": return C(x << y)
        except Exception: pass
    if op in ("+", "-") and b == ZERO: return a
    if op == "+" and a == ZERO: return b
    # (x + c1) +- c2
    if op in ("+", "-") and num(b) and a[0] == "op" and a[1] in ("+", "-") and len(a) == 4 and num(a[3]):
        c = (a[3][1] if a[1] == "+" else -a[3][1]) + (b[1] if op == "+" else -b[1])
        return a[2] if c == 0 else ("op", "+", a[2], C(c)) if c > 0 else ("op", "-", a[2], C(-c))
    if op in ("+", "*", "&", "|") and not (a[0] == "op" and a[1] == "ptr"):
        pass
    v = ("op", op, a, b)
    return v if depth(v) < 14 else ("deep", hash(v))

def depth(v):
    if not isinstance(v, tuple): return 0
    d = 0
    for x in v:
        if isinstance(x, tuple):
            d = max(d, depth(x))
            if d > 30: return d
    return d + 1

def mentions_join(k):
    if isinstance(k, tuple):
        if k and k[0] == "join": return True
        return any(mentions_join(x) for x in k)
    return False

def mentions(v, pred):
    if isinstance(v, tuple):
        if v and pred(v): return True
        for x in v:
            if isinstance(x, tuple) and mentions(x, pred): return True
    return False

def catches(P, ct, ty):
    if ct == "...": return True
    a = ct.replace("const ", "").replace(" &", "").replace("&", "").strip()
    b = ty.replace("const ", "").replace(" &", "").replace("&", "").strip()
    if a == b: return True
    if a.endswith("*") and b.endswith("*"): return P.is_a(b[:-1].strip(), a[:-1].strip())
    if not a.endswith("*") and not b.endswith("*"): return P.is_a(b, a)
    return False

_ATOMS = {}
def atoms_of(f):
    k = f["key"]
    if k not in _ATOMS:
        out = []
        def dec(n):
            if n is None: return
            if n["k"] == "bin" and n["op"] in ("&&", "||"): dec(n["a"]); dec(n["b"])
            elif n["k"] == "un" and n["op"] == "!": dec(n["e"])
            elif n["k"] == "cast" and n.get("ck") != "Dynamic": dec(n["e"])
            else: out.append(txt(n))
        for n in walk(f.get("b")):
            if n["k"] in ("if", "while", "for", "do", "cond", "switch"): dec(n.get("c"))
            elif n["k"] == "return" and n.get("e") is not None: dec(n["e"])
        _ATOMS[k] = out
    return _ATOMS[k]
