"""C07 C and Fortran index bases of the user's model are both honoured.

Two-run abstract interpretation: every function that gets a Jacobian/Hessian/gradient
structure from a model, builds one, or uses an array holding one is evaluated abstractly
twice, once for a model numbered from zero and once for the same model numbered from one.
Integers are (symbol, constant offset); an entry of a structure is (raw, style). What
leaves the function must be the same in both runs (rows and columns addressed, arrays
given to matrices, comparisons), except the entries of a structure the function itself
returns, which must be exactly one higher for a model numbered from one."""
from .common import *

NDEBUG = False
SRC = {"eval_jac_g": {5: "iRow", 6: "jCol"}, "eval_h": {8: "iRow", 9: "jCol"}, "eval_grad_gi": {5: "jCol"}}
NELE = {"eval_jac_g": 4, "eval_h": 7}
NARG = {"eval_jac_g": 8, "eval_h": 11, "eval_grad_gi": 7, "get_nlp_info": 5}
INFO = ("n", "m", "nnz_jac", "nnz_h")
PRINT = {"printf", "fprintf", "sprintf", "snprintf", "operator<<", "sort", "stable_sort", "resize", "reserve", "assign_", "erase", "clear", "size", "empty", "swap", "release", "free", "end", "assert", "__assert_fail", "iota"}
SAMEARR = {"begin", "data", "operator()", "c_str", "GetRawPtr", "ConstPtr", "rbegin", "cbegin", "get"}
STORE = {"push_back", "insert", "emplace", "emplace_back", "find", "count", "lower_bound", "upper_bound", "push_front", "push"}

def N(sym, k=0): return ("n", sym, k)
def K(k): return ("n", "", k)
def isn(v): return v is not None and v[0] == "n"
def isc(v): return isn(v) and v[1] == ""
def alts(v): return list(v[1]) if v is not None and v[0] == "or" else [v]
def mkor(vs):
    s = []
    for v in vs:
        for a in alts(v):
            if a not in s: s.append(a)
    if len(s) == 1: return s[0]
    if len(s) > 6: return None
    return ("or", tuple(sorted(s, key=str)))
def raw(v): return isn(v) and "raw:" in v[1]
def leaves(v, d=0):
    """numbers inside a value"""
    if v is None or d > 4: return []
    if v[0] == "n": return [v]
    if v[0] == "pair": return leaves(v[1], d + 1) + leaves(v[2], d + 1)
    if v[0] == "or": return [y for x in v[1] for y in leaves(x, d + 1)]
    return []

def is_src(n):
    return n["k"] == "call" and n.get("name") in NARG and len(n.get("a") or ()) == NARG[n["name"]]
def ptr(t): t = t or ""; return "*" in t or "vector" in t or "[" in t or "map" in t or "set<" in t or "Mat" in t or "iterator" in t

class Run:
    def __init__(s, P, style, tab, rel_, cls=None):
        s.P, s.style, s.tab, s.relevant, s.cls = P, style, tab, rel_, cls
        s.log = []; s.depth = 0; s.frame = 0; s.brk = []; s.stack = []; s.shift = []; s.fnstack = []; s.notes = []
        s.exits = []
    # ---- state: dict key -> value; ("el", key) -> element value; ("sz", key) -> entry count
    def join(s, a, b):
        if a is None: return b
        if b is None: return a
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k, "-"), b.get(k, "-")
            if x == y: out[k] = x
            elif x == "-": out[k] = y
            elif y == "-": out[k] = x
            else: out[k] = mkor([x, y])
        return out
    def rec(s, kind, where, v, n):
        for a in leaves(v):
            s.log.append((kind, where, a[1], a[2], n.get("l"), s.fnstack[-1]))
    # ---- keys
    def thiskey(s): return s.stack[-1]
    def lv(s, n, st):
        """location key of an lvalue (or None)"""
        n = peel(n) if n["k"] != "cast" else n
        k = n["k"]
        if k == "cast": return s.lv(n["e"], st)
        if k == "var":
            key = ("v", s.frame, n["id"], n["name"]) if n.get("w") != "global" else ("g", n["name"])
            v = st.get(key)
            if v is not None and v[0] == "lref": return v[1]
            return key
        if k == "mem":
            b = n["b"]
            if b["k"] == "this": return ("f", s.thiskey(), n.get("cls"), n["f"])
            bk = s.lv(b, st)
            if n.get("arrow") or bk is None:
                v = s.ev(b, st)
                if v is not None and v[0] in ("arr", "ref"):
                    if v[0] == "ref": return ("f", v[1], n.get("cls"), n["f"])
                    return ("sub", ("el", v[1]), n["f"])
                bk = ("x", txt(b)[:60])
            if n["f"] in ("first", "second"): return ("sub", bk, n["f"])
            return ("f", bk, n.get("cls"), n["f"])
        if k == "idx" or (k == "call" and n.get("op") == "[]") or (k == "call" and n.get("name") == "at" and n.get("obj")):
            b, i = (n["b"], n["i"]) if k == "idx" else ((n["obj"], n["a"][0]) if n.get("obj") else (n["a"][0], n["a"][1]))
            iv = s.ev(i, st); bv = s.arr(b, st)
            s.rec("I", "", iv, n) if any(raw(x) or s.styled(x) for x in leaves(iv)) else None
            s.itxt = txt(i)
            return ("el", bv) if bv is not None else None
        if k == "un" and n["op"] == "*":
            v = s.arr(n["e"], st)
            return ("el", v) if v is not None else None
        if k == "un" and n["op"] in ("++", "--") and not n.get("post"):
            s.ev(n, st); return s.lv(n["e"], st)
        if k == "call" and n.get("op") == "*" and (n.get("obj") or n.get("a")):
            v = s.arr(n.get("obj") or n["a"][0], st)
            return ("el", v) if v is not None else None
        if k == "call" and n.get("name") in ("back", "front") and n.get("obj"):
            v = s.arr(n["obj"], st)
            return ("el", v) if v is not None else None
        return None
    def styled(s, v): return False
    def arr(s, n, st):
        """array key denoted by a pointer / container / iterator expression"""
        v = s.ev(n, st)
        if v is not None and v[0] == "arr": return v[1]
        if v is not None and v[0] == "or":
            ks = {x[1] for x in v[1] if x and x[0] == "arr"}
            if len(ks) == 1: return ks.pop()
        return None
    def read(s, key, st, t=None, name=None):
        if key is None: return None
        if key[0] == "sub":
            v = s.read(key[1], st)
            vs = []
            for a in alts(v):
                vs.append((a[1] if key[2] == "first" else a[2]) if a is not None and a[0] == "pair" else None)
            vs = [x for x in vs if x is not None]
            if vs: return mkor(vs)
            if v is None or isn(v): return N("%s.%s" % (s.kname(key[1]), key[2]))
            return None
        if key in st:
            v = st[key]
            return s.read(v[1], st) if v is not None and v[0] == "lref" else v
        if key[0] == "f" and (key[2], key[3]) in s.tab:
            v = s.tab[(key[2], key[3])]
            if v[0] == "style": return K(v[1][s.style])
        if key[0] == "el":
            b = key[1]
            if b[0] == "f" and (b[2], b[3]) in s.tab:
                v = s.tab[(b[2], b[3])]
                if v[0] == "el": return v[1][s.style]
            if ptr(t): return ("arr", key)
            return N("%s[]" % s.kname(b))
        if ptr(t): return ("arr", key)
        return N(s.kname(key))
    def kname(s, k):
        if k[0] == "v": return k[3]
        if k[0] == "f": return k[3]
        if k[0] == "el": return s.kname(k[1]) + "[]"
        if k[0] == "sub": return "%s.%s" % (s.kname(k[1]), k[2])
        return str(k[1])[:40]
    def write(s, key, v, st, n):
        if key is None: return
        if key[0] == "sub":
            o = s.read(key[1], st)
            a, b = (o[1], o[2]) if o is not None and o[0] == "pair" else (None, None)
            st[key[1]] = ("pair", v, b) if key[2] == "first" else ("pair", a, v)
            return
        if key[0] == "el":
            b = key[1]
            old = st.get(key)
            if s.kname(b) is not None: s.wrote(b, v, n)
            st[key] = v
            return
        st[key] = v
    def wrote(s, b, v, n):
        if b in s.roles:
            k = (b, s.itxt)
            if k in s.last and s.itxt is not None: s.log = s.log[:s.last[k][0]] + s.log[s.last[k][1]:]   # overwritten at once
            a = len(s.log); s.rec("W", s.roles[b], v, n)
            s.last = {k: (a, len(s.log))}
        elif b[0] == "f": s.rec("S", "%s::%s" % (b[2], b[3]), v, n)
    roles = {}; last = {}; itxt = None
    # ---- expressions
    def ev(s, n, st):
        if n is None: return None
        k = n["k"]
        if k in ("int", "bool"): return K(int(n["v"]))
        if k == "enum": return K(int(n["v"])) if n.get("v") is not None else None
        if k == "null": return None
        if k == "this": return ("ref", s.thiskey())
        if k == "cast":
            v = s.ev(n["e"], st)
            if (n.get("ct") or n.get("t")) == "bool" and isc(v): return K(int(bool(v[2])))
            return v
        if k == "var" or k == "mem":
            key = s.lv(n, st)
            return s.read(key, st, n.get("t") if not (n.get("t") or "").endswith("Enum") else None)
        if k == "idx" or (k == "call" and (n.get("op") in ("[]",) or n.get("name") in ("at", "back", "front") and n.get("obj"))):
            key = s.lv(n, st)
            return s.read(key, st, n.get("t")) if key else None
        if k == "un": return s.un(n, st)
        if k == "bin": return s.bin(n, st)
        if k == "assign": return s.assign(n, st)
        if k == "cond":
            c = s.ev(n["c"], st)
            if isc(c): return s.ev(n["t"] if c[2] else n["e"], st)
            t = peel(n["t"]); e = peel(n["e"])
            if t.get("noreturn"): return s.ev(n["e"], st)
            if e.get("noreturn"): return s.ev(n["t"], st)
            a = s.ev(n["t"], st); b = s.ev(n["e"], st)
            return mkor([x for x in (a, b) if x is not None]) if (a is not None or b is not None) else None
        if k == "new":
            if n.get("n"): s.ev(n["n"], st)
            e = n.get("e")
            if e is not None and e["k"] == "ctor" and not n.get("arr"): s.call(e, st); return ("ref", ("new", n.get("l"), n.get("t")))
            return ("arr", ("new", n.get("l"), len(s.fnstack), s.fnstack[-1]["fn"], s.site(n)))
        if k == "ctor" or k == "call": return s.call(n, st)
        if k in ("str", "float", "sizeof", "fnref"): return None
        for x in kids(n): s.ev(x, st)
        return None
    _sites = {}
    def site(s, n): return s._sites.setdefault(id(n), len(s._sites))
    def un(s, n, st):
        op = n["op"]
        if op in ("++", "--"):
            key = s.lv(n["e"], st)
            v = s.read(key, st, n["e"].get("t"))
            w = s.add(v, K(1), 1 if op == "++" else -1)
            s.write(key, w, st, n)
            return v if n.get("post") else w
        if op == "&":
            e = peel(n["e"])
            key = s.lv(e, st)
            if key is None: return None
            if key[0] == "el": return ("arr", key[1])
            v = s.read(key, st, e.get("t"))
            if v is not None and v[0] in ("arr",): return v
            return ("ref", key)
        if op == "*":
            key = s.lv(n, st)
            return s.read(key, st, n.get("t")) if key else None
        v = s.ev(n["e"], st)
        if op == "!" : return K(int(not v[2])) if isc(v) else None
        if op == "-" : return K(-v[2]) if isc(v) else (N("-(%s)" % v[1], -v[2]) if isn(v) else None)
        return v if op in ("+", "__extension__") else None
    def add(s, a, b, sg):
        if a is not None and a[0] == "arr": return a
        if b is not None and b[0] == "arr": return b
        if a is not None and a[0] == "or" or b is not None and b[0] == "or":
            return mkor([s.add(x, y, sg) for x in alts(a) for y in alts(b)])
        if not isn(a) or not isn(b): return None
        if not b[1]: return N(a[1], a[2] + sg * b[2])
        if not a[1] and sg > 0: return N(b[1], b[2] + a[2])
        return N("(%s%s%s)" % (a[1], "+" if sg > 0 else "-", b[1]), a[2] + sg * b[2])
    def bin(s, n, st):
        op = n["op"]
        if op in ("&&", "||"):
            a = s.ev(n["a"], st)
            if isc(a) and bool(a[2]) == (op == "||"): return K(int(op == "||"))
            b = s.ev(n["b"], st)
            if isc(b) and bool(b[2]) == (op == "||"): return K(int(op == "||"))
            if isc(a) and isc(b): return K(int(bool(b[2])))
            return None
        a, b = s.ev(n["a"], st), s.ev(n["b"], st)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if isc(a) and isc(b):
                x, y = a[2], b[2]
                return K(int({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]))
            for x in alts(a):
                for y in alts(b):
                    if isn(x) and isn(y) and (raw(x) or raw(y)) and not isc(x) and not isc(y):
                        s.log.append(("C", "", "%s ~ %s" % (x[1], y[1]), x[2] - y[2], n.get("l"), s.fnstack[-1]))
            return None
        if op == ",": return b
        if op == "+": return s.add(a, b, 1)
        if op == "-": return s.add(a, b, -1)
        if isc(a) and isc(b) and op == "*": return K(a[2] * b[2])
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if isc(x) and x[2] == 0: return K(0)
                if isc(x) and x[2] == 1: return y
        if isn(a) and isn(b): return N("(%s%+d%s%s%+d)" % (a[1], a[2], op, b[1], b[2]))
        return None
    def assign(s, n, st):
        key = s.lv(n["a"], st)
        v = s.ev(n["b"], st)
        op = n["op"]
        if op in ("+=", "-="):
            v = s.add(s.read(key, st, n["a"].get("t")), v, 1 if op == "+=" else -1) if key else None
        elif op != "=": v = None
        if op == "=" and v is not None and v[0] == "arr" and key is not None and "vector" in (n["a"].get("t") or ""):
            s.copyel(v[1], key, st, n); return v
        s.write(key, v, st, n)
        return v
    def copyel(s, src, dst, st, n):
        v = s.read(("el", src), st)
        s.wrote(dst, v, n)
        st[("el", dst)] = v
        if ("sz", src) in st: st[("sz", dst)] = st[("sz", src)]
    def call(s, n, st):
        name = n.get("name"); args = n.get("a") or []
        if is_src(n) and n["k"] == "call": return s.source(n, st, name, args)
        if n.get("op") == "=" and (n.get("obj") or len(args) == 2):
            a, b = (n["obj"], args[0]) if n.get("obj") else args
            return s.assign({"k": "assign", "op": "=", "a": a, "b": b, "l": n.get("l")}, st) if not n.get("obj") or True else None
        if n.get("op") in ("++", "--"):
            return s.ev(n.get("obj") or args[0], st)
        if n.get("op") in ("->", "*") and n.get("obj"):
            if n.get("op") == "*":
                key = s.lv(n, st); return s.read(key, st, n.get("t")) if key else None
            return s.ev(n["obj"], st)
        if n.get("op") in ("!=", "==") : 
            for x in ([n["obj"]] if n.get("obj") else []) + args: s.ev(x, st)
            return None
        if n.get("op") in ("+", "-"):
            vs = [s.ev(x, st) for x in ([n["obj"]] if n.get("obj") else []) + args]
            return next((v for v in vs if v is not None and v[0] == "arr"), None)
        if name in SAMEARR:
            v = s.ev(n.get("obj") or (args[0] if args else None), st)
            for x in args[0 if n.get("obj") else 1:]: s.ev(x, st)
            if name != "operator()" or v is not None and v[0] == "arr": return v
        vals = [s.ev(x, st) for x in args]
        if name == "make_pair" and len(vals) == 2: return ("pair", vals[0], vals[1])
        if n["k"] == "ctor":
            c = n.get("cls") or ""
            if c.endswith("pair") and len(vals) == 2: return ("pair", vals[0], vals[1])
            if len(vals) == 1 and ((n.get("how") or "")[:1] in ("R", "r", "m") or c.endswith("pair")) and not c.startswith("Coin"): return vals[0]
            if c.endswith("vector") and len(vals) == 2 and all(v is not None and v[0] == "arr" for v in vals): return vals[0]
            if c.endswith(("vector", "map", "set")): return None
        if name in ("max", "min", "CoinMax", "CoinMin", "move", "forward"):
            vs = [v for v in vals if v is not None]
            return mkor(vs) if vs else None
        if name == "CoinFillN" or name in ("fill_n",):
            dst, v = vals[0], vals[2] if len(vals) > 2 else None
            if dst is not None and dst[0] == "arr": s.write(("el", dst[1]), v, st, n)
            return None
        if name == "fill" and len(vals) == 3:
            if vals[0] is not None and vals[0][0] == "arr": s.write(("el", vals[0][1]), vals[2], st, n)
            return None
        if name == "CoinIotaN" and len(vals) == 3:
            if vals[0] is not None and vals[0][0] == "arr": s.write(("el", vals[0][1]), s.add(N("iota"), vals[2], 1), st, n)
            return None
        if name in ("CoinCopyN", "CoinDisjointCopyN", "CoinMemcpyN", "copy", "memcpy", "copy_n") and len(vals) == 3:
            src, dst = (vals[1], vals[0]) if name == "memcpy" else (vals[0], vals[2])
            if src is not None and dst is not None and src[0] == dst[0] == "arr": s.copyel(src[1], dst[1], st, n)
            return dst
        if name in ("CoinCopyOfArray",) and vals:
            if vals[0] is not None and vals[0][0] == "arr":
                k = ("new", n.get("l"), s.site(n)); st[("el", k)] = s.read(("el", vals[0][1]), st)
                return ("arr", k)
            return None
        if name in STORE and n.get("obj"):
            c = s.arr(n["obj"], st)
            if c is not None and not (n.get("cls") or "").startswith(("Coin", "Osi", "Bonmin::Quad")):
                v = vals[0] if len(vals) == 1 else None
                if name in ("find", "count", "lower_bound", "upper_bound"): v = ("pair", v, None) if v is not None and v[0] == "pair" else v
                if name == "push_back" or name == "emplace_back" or name in ("insert", "push", "push_front", "emplace"):
                    s.wrote(c, key1(v, n), n)
                    old = st.get(("el", c)); st[("el", c)] = v if old is None or v is None else mkor([old, v])
                else: s.wrote(c, v, n)
                if name == "insert": return ("pair", ("arr", c), None)
                return ("arr", c)
        if name in PRINT: return None
        f = s.P.target(n)
        if f is not None and f.get("b") is not None and s.depth < 5 and all(f is not g for g in s.fnstack) and s.want(f, n, vals):
            return s.inline(f, n, vals, args, st)
        obj = s.ev(n["obj"], st) if n.get("obj") and n["obj"]["k"] != "this" else None
        if f is None:
            for k, v in enumerate(vals):
                e = v
                if v is not None and v[0] == "arr": e = s.read(("el", v[1]), st)
                for x in leaves(e):
                    if raw(x): s.log.append(("E", n.get("fn") or name, x[1], x[2], n.get("l"), s.fnstack[-1]))
        elif f.get("b") is not None and (f["key"] in s.relevant or any(v is not None and v[0] == "arr" for v in vals)):
            # not followed: arrays it may write are unknown, fields are as inferred for the class
            for v, h in zip(vals, n.get("how") or ""):
                if v is not None and v[0] == "arr" and h in "pr": st[("el", v[1])] = None
            for k in [k for k in st if k[0] == "f" or k[0] == "el" and k[1][0] == "f"]: del st[k]
        return None
    def want(s, f, n, vals):
        if s.P_size(f) > 1500: return False
        if f["key"] in s.relevant: return True
        b = f["b"].get("s") or []
        if len(b) == 1 and b[0]["k"] == "return": return True
        return any(v is not None and (v[0] == "arr" or any(raw(x) for x in leaves(v))) for v in vals)
    _sz = {}
    def P_size(s, f):
        if f["key"] not in s._sz: s._sz[f["key"]] = sum(1 for _ in walk(f["b"]))
        return s._sz[f["key"]]
    def source(s, n, st, name, args):
        if name == "get_nlp_info":
            for i, a in enumerate(args):
                key = s.lv(a, st)
                if key is not None: st[key] = K(s.style) if i == 4 else N(INFO[i])
            return None
        nele = s.ev(args[NELE[name]], st) if name in NELE else None
        for i, a in enumerate(args):
            if i in SRC[name]:
                v = s.ev(a, st)
                if v is not None and v[0] == "arr":
                    st[("el", v[1])] = N("raw:" + SRC[name][i], s.style)
                    if nele is not None: st[("sz", v[1])] = nele
                    s.srcs += 1
            elif i == 4 and name == "eval_grad_gi":
                key = s.lv(a, st)
                if key is not None: st[key] = N("nele_gi")
                for j, b in ((5, args[5]),):
                    v = s.ev(b, st)
            elif i not in NELE.values(): s.ev(a, st)
        return None
    srcs = 0
    def inline(s, f, n, vals, args, st):
        if n.get("obj") is not None and n["obj"]["k"] != "this":
            ov = s.ev(n["obj"], st)
            ok = s.lv(n["obj"], st) if ov is None or ov[0] != "ref" else ov[1]
            tk = ok if ok is not None else ("x", txt(n["obj"])[:60])
        elif n["k"] == "ctor": tk = ("new", n.get("l"), s.site(n))
        else: tk = s.thiskey()
        fr = s.frame; s.nframe = getattr(s, "nframe", 0) + 1
        keys = []
        for a in args:
            keys.append(s.lv(a, st) if peel(a)["k"] in ("var", "mem", "idx") else None)
        s.frame = s.nframe
        for p, v, k in zip(f["p"], vals, keys):
            pk = ("v", s.frame, p["id"], p["name"])
            if "&" in (p.get("t") or "") and k is not None: st[pk] = ("lref", k)
            else: st[pk] = v if v is not None else N(p["name"]) if not ptr(p.get("t")) else None
        s.stack.append(tk); s.fnstack.append(f); s.depth += 1
        ex = s.exits; s.exits = []; bk = s.brk; s.brk = []
        out = dict(st)
        for i in f.get("inits") or []: s.init(i, f, out)
        end = s.x(f["b"], out)
        rs = [r for r in s.exits]
        fin = end; vs = []
        for stt, v, fail in rs:
            fin = s.join(fin, stt)
            if v is not None: vs.append(v)
        s.exits = ex; s.brk = bk; s.depth -= 1; s.stack.pop(); s.fnstack.pop(); s.frame = fr
        if fin is not None:
            st.clear(); st.update(fin)
        return mkor(vs) if vs else None
    def init(s, i, f, st):
        if i.get("f"):
            v = s.ev(i.get("e"), st)
            key = ("f", s.thiskey(), f["cls"], i["f"])
            if v is not None:
                if v[0] == "arr" and i.get("e") and i["e"]["k"] == "ctor": st[("el", key)] = s.read(("el", v[1]), st)
                else: st[key] = v
        elif i.get("e"): s.ev(i["e"], st)
    # ---- statements: return the state after, or None when control does not get there
    def x(s, n, st):
        if n is None or st is None: return st
        k = n["k"]
        if k not in ("block", "decl", "assign"): s.last = {}
        if k == "block":
            for q in n["s"]:
                st = s.x(q, st)
                if st is None: return None
            return st
        if k == "decl":
            for v in n["v"]:
                key = ("v", s.frame, v["id"], v["name"]); e = v.get("e")
                t = v.get("t") or ""
                if e is None: st.pop(key, None); st.pop(("el", key), None); continue
                if t.rstrip().endswith("&") and peel(e)["k"] in ("var", "mem", "idx", "call", "un") :
                    lk = s.lv(e, st)
                    if lk is not None: st[key] = ("lref", lk); continue
                val = s.ev(e, st)
                st.pop(key, None); st.pop(("el", key), None)
                if val is not None and val[0] == "arr" and "vector" in t and "iterator" not in t and "*" not in t: st[("el", key)] = s.read(("el", val[1]), st)
                elif val is not None: st[key] = val
            return st
        if k == "if":
            if n.get("init"): st = s.x(n["init"], st)
            c = s.cond(n["c"], st)
            if isc(c): return s.x(n["t"] if c[2] else n.get("e"), st)
            a = s.x(n["t"], dict(st)); b = s.x(n.get("e"), dict(st)) if n.get("e") else st
            return s.join(a, b)
        if k in ("for", "while", "do", "rfor"): return s.loop(n, st)
        if k == "return":
            v = s.ev(n.get("e"), st)
            s.exits.append((st, v, isc(v) and v[2] == 0)); return None
        if k in ("break", "continue"):
            if s.brk: s.brk[-1].append(st)
            return None
        if k == "throw": 
            return None
        if k == "switch": return s.switch(n, st)
        if k in ("case", "default", "label"): return s.x(n["s"], st)
        if k == "try":
            b = s.x(n["b"], dict(st))
            for h in n.get("h") or []: b = s.join(b, s.x(h.get("b"), dict(st)))
            return b
        if k == "delete":
            return st
        s.ev(n, st)
        if k == "call" and n.get("noreturn"): return None
        return st
    def cond(s, c, st): return s.ev(c, st) if c["k"] != "decl" else (s.x(c, st), None)[1]
    def assigned(s, n):
        out = set()
        for q in walk(n):
            t = q["a"] if q["k"] == "assign" else q["e"] if q["k"] == "un" and q["op"] in ("++", "--") else None
            if t is not None and peel(t)["k"] == "var" and not ptr(peel(t).get("t")): out.add((peel(t)["id"], peel(t)["name"]))
        return out
    def loop(s, n, st):
        if n.get("init"): st = s.x(n["init"], st)
        if st is None: return None
        first = None
        mod = s.assigned(n)
        for i, nm in mod:
            key = ("v", s.frame, i, nm)
            if n["k"] == "for" and first is None and n.get("c") is not None and any(q["k"] == "var" and q["id"] == i for q in walk(n["c"])): first = (key, st.get(key), i)
            st[key] = N(nm)
        if mod and any("raw:" in str(v) for v in st.values()):
            # what the variables carry from one iteration to the next
            q = s.quiet(n, dict(st))
            for i, nm in mod:
                v = q.get(("v", s.frame, i, nm)) if q else None
                vs = [x for x in alts(v) if raw(x)]
                if vs: st[("v", s.frame, i, nm)] = mkor(vs)
        if n["k"] == "rfor":
            a = s.arr(n["r"], st)
            for v in n["v"]["v"]:
                key = ("v", s.frame, v["id"], v["name"])
                st.pop(key, None)
                if a is not None: st[key] = ("lref", ("el", a)) if "&" in (v.get("t") or "") else s.read(("el", a), st, v.get("t"))
        c = s.ev(n["c"], st) if n.get("c") and n["k"] != "do" else None
        if isc(c) and not c[2] and n["k"] != "do": return st
        bound = s.bound(n, st, first)
        pre = {k: v for k, v in st.items() if k[0] == "el"}
        s.brk.append([])
        out = s.x(n.get("b"), dict(st))
        for q in s.brk.pop(): out = s.join(out, q)
        if out is None: return st
        if n.get("inc"): s.ev(n["inc"], out)
        # an in-place shift of a structure array has to cover every entry
        for k, v in out.items():
            if k[0] == "el" and k in pre and pre[k] != v and raw(pre[k]) and raw(v) and pre[k][1] == v[1] and bound is not None:
                sz = out.get(("sz", k[1]))
                if bound[0] not in (None, K(0)) or (bound[1] is not None and sz is not None and sz != bound[1]):
                    s.notes.append((n, s.fnstack[-1], s.kname(k[1]), bound, sz))
        res = dict(out)
        for i, nm in mod: res[("v", s.frame, i, nm)] = mkor([x for x in (out.get(("v", s.frame, i, nm)),) if x is not None]) if out.get(("v", s.frame, i, nm)) is not None else N(nm)
        return res
    def quiet(s, n, st):
        keep = (s.log, s.notes, s.exits, s.last, s.brk)
        s.log, s.notes, s.exits, s.last, s.brk = [], [], [], {}, [[]]
        out = s.x(n.get("b"), st)
        for q in s.brk[-1]: out = s.join(out, q)
        s.log, s.notes, s.exits, s.last, s.brk = keep
        return out
    def bound(s, n, st, first):
        if n["k"] != "for" or first is None or n.get("c") is None: return None
        c = peel(n["c"])
        if c["k"] != "bin" or c["op"] not in ("<", "!="): return None
        a = peel(c["a"])
        if a["k"] != "var" or a["id"] != first[2]: return None
        b = s.ev(c["b"], st)
        return first[1], b if isn(b) and b[1] in INFO and b[1] else None
    def switch(s, n, st):
        v = s.ev(n["c"], st)
        body = n.get("b") or {"k": "block", "s": []}
        flat = []
        def fl(q):
            if q["k"] in ("case", "default"):
                flat.append(("lab", q)); fl(q["s"]) if q.get("s") else None
            elif q["k"] == "block" and q is body: [fl(z) for z in q["s"]]
            else: flat.append(("st", q))
        fl(body)
        s.brk.append([])
        cur = None; hit = False
        for kind, q in flat:
            if kind == "lab":
                if isc(v):
                    cv = s.ev(q.get("c") or q.get("v") or q.get("e"), dict(st)) if q["k"] == "case" else None
                    if q["k"] == "default": take = not hit
                    else: take = isc(cv) and cv[2] == v[2]
                    if take: hit = True; cur = s.join(cur, dict(st))
                else: cur = s.join(cur, dict(st))
            elif cur is not None: cur = s.x(q, cur)
        out = cur
        for q in s.brk.pop(): out = s.join(out, q)
        return s.join(out, st) if not hit else out
    # ---- one function
    def go(s, f):
        s.stack = ["this"]; s.fnstack = [f]; s.frame = 0
        st = {}
        s.roles = {}
        if f["name"] in SRC and len(f["p"]) == NARG[f["name"]]:
            for i, r in SRC[f["name"]].items(): s.roles[("v", 0, f["p"][i]["id"], f["p"][i]["name"])] = r
        for i in f.get("inits") or []: s.init(i, f, st)
        end = s.x(f["b"], st)
        outs = [e for e, v, fail in s.exits if not (fail and f["ret"] == "bool")]
        for e in outs: end = s.join(end, e)
        s.final = end or {}
        return s

def key1(v, n):
    """what is stored: the key part for maps"""
    c = n.get("cls") or ""
    if v is not None and v[0] == "pair" and "map" in c: return v[1]
    return v

def field_state(run):
    """fields of this at the end: (class, field) -> ("el", element value) / ("val", v)"""
    out = {}
    for k, v in run.final.items():
        if k[0] == "f" and k[1] == "this":
            if v is not None and v[0] == "arr":
                e = run.final.get(("el", v[1]))
                if e is not None: out[(k[2], k[3])] = ("el", e)
            elif isc(v): out[(k[2], k[3])] = ("val", v[2])
        if k[0] == "el" and k[1][0] == "f" and k[1][1] == "this" and v is not None: out.setdefault((k[1][2], k[1][3]), ("el", v))
    return out

def run(P, R):
    R.rule("C07.index", "a row or column taken from a model's structure addresses, and is compared with, the same row or column whichever base the model numbers from")
    R.rule("C07.matrix", "index arrays handed to matrices and solvers are the same whichever base the model numbers from")
    R.rule("C07.entries", "entries a wrapper writes into a structure it returns are exactly one higher for a model numbered from one")
    R.rule("C07.kept", "structures kept in an object use one base only")
    R.rule("C07.declared", "a wrapper declares the base of the structures it returns")
    R.rule("C07.covered", "an array rebased in place is rebased over all its entries")
    skipdir = ("Ampl/", "Filter/")
    F = [f for f in P.F.values() if f.get("b") is not None and not any(d in (rel(f) or "") for d in skipdir)]
    base = {f["key"] for f in F if any(is_src(n) for n in walk(f["b"]))}
    tab = {}; sty = set()
    relevant = set(base)
    for rnd in range(4):
        names = {k for k in tab}
        rel_ = set(base)
        for f in F:
            if f["key"] in rel_: continue
            if any(n["k"] == "mem" and (n.get("cls"), n["f"]) in names for n in walk(f["b"])): rel_.add(f["key"])
            elif f["name"] in NARG and len(f["p"]) == NARG[f["name"]]: rel_.add(f["key"])
        # callers of relevant helpers
        for _ in range(3):
            for f in F:
                if f["key"] in rel_: continue
                for c in P.calls(f):
                    g = P.target(c)
                    if g is not None and g["key"] in rel_ and not is_src(c): rel_.add(f["key"]); break
        changed = rel_ != relevant; relevant = rel_
        new = {}
        for f in F:
            if f["key"] not in base: continue
            r = [Run(P, s, tab, relevant, f.get("cls")).go(f) for s in (0, 1)]
            fs = [field_state(x) for x in r]
            for k in set(fs[0]) & set(fs[1]):
                a, b = fs[0][k], fs[1][k]
                if a[0] == "val" and b[0] == "val" and a[1] != b[1]: new[k] = ("style", (a[1], b[1]))
                elif a[0] == "el" and b[0] == "el" and any(raw(x) for x in leaves(a[1])): new[k] = ("el", (a[1], b[1]))
        if new == tab and not changed: break
        tab = new
    R.count("index_arrays_kept_in_objects", sum(1 for v in tab.values() if v[0] == "el"))
    R.count("style_fields", sum(1 for v in tab.values() if v[0] == "style"))
    todo = [f for f in F if f["key"] in relevant]
    decl = {}
    runs = {}
    for f in todo:
        r = [Run(P, s, tab, relevant, f.get("cls")).go(f) for s in (0, 1)]
        runs[f["key"]] = (f, r)
        R.funcs.add(f["fn"])
        if f["name"] == "get_nlp_info" and len(f["p"]) == 5 and f.get("cls"):
            p = f["p"][4]; key = ("v", 0, p["id"], p["name"])
            decl[f["cls"]] = (f, tuple(x.final.get(key) for x in r))
    # declared bases
    fixed = set()
    for c, (f, d) in sorted(decl.items()):
        R.ob()
        forwards = any(g.get("cls") == c and g["name"] in ("eval_jac_g", "eval_h") and any(is_src(n) and n["name"] == g["name"] and any(peel(a)["k"] != "null" for a in n["a"][NARG[n["name"]] - 3:NARG[n["name"]] - 1]) for n in walk(g["b"])) for g in F)
        if d == (K(0), K(1)): continue
        if d == (K(0), K(0)) and not forwards: fixed.add(c); continue
        if c == "Bonmin::StdInterfaceTMINLP": continue
        if isc(d[0]) and isc(d[1]) or forwards:
            R.v("C07.declared", f, f.get("l"), c, "%s declares base %s for a model numbered from zero and %s for a model numbered from one" % (c, show(d[0]), show(d[1])))
    std = [f for f in F if f["fn"] == "Bonmin::StdInterfaceTMINLP::get_nlp_info"]
    R.need(std, "the C interface's get_nlp_info was not found")
    for f in std:
        p = f["p"][4]; key = ("v", 0, p["id"], p["name"])
        fld = "index_style_"
        for s in (0, 1):
            R.ob()
            x = Run(P, s, {(f["cls"], fld): ("style", (0, 1))}, relevant).go(f)
            v = x.final.get(key)
            if v != K(s): R.v("C07.declared", f, f.get("l"), "%s/%d" % (f["cls"], s), "the C interface reports base %s for a problem created with index_style %d" % (show(v), s))
    nW = nI = 0
    for key, (f, r) in sorted(runs.items()):
        S = [{(k, w, sym, o) for k, w, sym, o, l, g in x.log} for x in r]
        nW += sum(1 for e in r[1].log if e[0] == "W"); nI += sum(1 for e in r[1].log if e[0] in "IEC")
        for s in (1, 0):
            for k, w, sym, o, l, g in r[s].log:
                d = 0
                if k == "S": continue
                if k == "W": d = 0 if f.get("cls") in fixed else 1
                R.ob()
                want = o - d if s == 1 else o + d
                if (k, w, sym, want) in S[1 - s]: continue
                got = sorted(x[3] for x in S[1 - s] if x[:3] == (k, w, sym))
                if k == "W":
                    R.v("C07.entries", f, l, "%s/%s" % (f["name"], w), "%s writes entry %s into %s for a model numbered from %d; for the other base the matching entry %s is not written%s" % (f["name"], lin(sym, o), w, s, lin(sym, want), " (it writes %s)" % ", ".join(lin(sym, x) for x in got) if got else ""))
                elif k == "E":
                    R.v("C07.matrix", g, l, "%s/%s" % (w, sym), "%s is given indices %s for a model numbered from %d, but not for one numbered from %d%s" % (w, lin(sym, o), s, 1 - s, " (%s)" % ", ".join(lin(sym, x) for x in got) if got else ""))
                else:
                    R.v("C07.index", g, l, "%s/%s" % (k, sym), "%s %s when the model numbers from %d, but %s when it numbers from %d: the same entry of the structure is taken for a different row or column" % ("the index used is" if k == "I" else "the comparison", lin(sym, o), s, ", ".join(lin(sym, x) for x in got) or "nothing", 1 - s), )
        both = {id(x[0]) for x in r[0].notes}
        for n, g, nm, b, sz in r[1].notes:
            if id(n) in both: continue      # not a change of base
            R.v("C07.covered", g, n.get("l"), nm, "the loop that rebases %s runs from %s to %s, but the array has %s entries" % (nm, show(b[0]), show(b[1]), show(sz)))
        R.ob(len(r[1].notes))
    # kept structures: one base per container
    st = {}
    for key, (f, r) in runs.items():
        for s in (0, 1):
            for k, w, sym, o, l, g in r[s].log:
                if k == "S": st.setdefault(w, {}).setdefault(sym, ({}, {}))[s].setdefault(o, (f, l, g))
    for w, syms in sorted(st.items()):
        diffs = {}
        for sym, (a, b) in syms.items():
            if not a or not b: continue
            d = min(b) - min(a)
            diffs.setdefault(d, []).append((sym, b[min(b)]))
        cls, fld = w.rsplit("::", 1)
        tracked = any(k[1] == fld and k[0] == cls and v[0] == "el" for k, v in tab.items()) or any("raw:" in x for x in syms)
        if not tracked: continue
        R.ob()
        if len(diffs) > 1:
            d = min(diffs); sym, (f, l, g) = diffs[d][0]
            R.v("C07.kept", g, l, "%s/%s" % (w, sym), "%s is kept with the model's own numbering elsewhere, but %s is stored in it without following the model's base" % (w, sym))
    # arrays kept for others (nothing here reads them) are numbered from zero
    for k, v in sorted(tab.items()):
        if v[0] != "el" or any(P.is_a(k[0], b) for b in ("Ipopt::TNLP", "Bonmin::TMINLP")): continue
        writers = [f for f in F if f["key"] in base and f.get("cls") == k[0]]
        if any(n["k"] == "mem" and n["f"] == k[1] and n.get("cls") == k[0] for f in F if f["key"] not in base and not f.get("ctor") and f["name"] != "operator=" for n in walk(f["b"])): continue
        R.ob()
        if v[1][0] != v[1][1]:
            f = next((w for w in writers if any(n["k"] == "mem" and n["f"] == k[1] for n in walk(w["b"]))), writers[0])
            R.v("C07.kept", f, f.get("l"), "%s::%s" % k, "%s::%s keeps %s for a model numbered from zero and %s for one numbered from one" % (k[0], k[1], show(v[1][0]), show(v[1][1])))
    for k, v in tab.items():
        if v[0] == "el": R.sample("%s::%s keeps %s / %s" % (k[0], k[1], show(v[1][0]), show(v[1][1])))
        else: R.sample("%s::%s is the style" % k)
    R.atleast("functions_evaluated", len(todo), 40)
    R.atleast("structure_entries_written", nW, 14)
    R.atleast("index_uses", nI, 40)
def lin(sym, k): return ("%s%+d" % (sym, k) if k else sym) if sym else str(k)
def show(v):
    if v is None: return "?"
    if v[0] == "n": return lin(v[1], v[2])
    if v[0] == "or": return " or ".join(show(x) for x in v[1])
    if v[0] == "pair": return "(%s, %s)" % (show(v[1]), show(v[2]))
    return str(v)[:60]
