"""C03 every option is honoured: registered, typed, in range, meant as named."""
import json, os, re
from .common import *

NDEBUG = False
GETS = {"GetIntegerValue": "int", "GetNumericValue": "num", "GetEnumValue": "str", "GetBoolValue": "bool", "GetStringValue": "str"}
SETS = {"SetIntegerValue": "int", "SetNumericValue": "num", "SetStringValue": "str", "SetIntegerValueIfUnset": "int", "SetNumericValueIfUnset": "num", "SetStringValueIfUnset": "str"}
GLOBALS = {"COIN_INT_MAX": 2147483647.0, "COIN_DBL_MAX": 1.7976931348623157e308}
PARAM = {"getIntParameter": "Bonmin::BabSetupBase::IntParameter", "getDoubleParameter": "Bonmin::BabSetupBase::DoubleParameter"}
PARR = {"intParam_": "Bonmin::BabSetupBase::IntParameter", "doubleParam_": "Bonmin::BabSetupBase::DoubleParameter"}
OL = "Ipopt::OptionsList"
RO = ("Ipopt::RegisteredOptions", "Bonmin::RegisteredOptions")
CONF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "config", "c03.json")

def is_opt(n): return n["k"] == "call" and (n.get("cls") == OL and (n.get("name") in GETS or n.get("name") in SETS) or n.get("cls") in RO and (n.get("name", "").startswith("Add") or n.get("name") in ("setOptionExtraInfo", "SetRegisteringCategory")))

def tail(v):
    """Option name a (possibly prefixed) string value ends with."""
    if v[0] == "str": return v[1].split(".")[-1]
    if v[0] == "cat":
        t = tail(v[2])
        return t
    return None

def full(v):
    return v[1] if v[0] == "str" else None

def fold(v):
    """Numeric constant of a value."""
    if v[0] == "c": return float(v[1])
    if v[0] == "i" and v[1][0] == "g" and v[1][1] in GLOBALS: return GLOBALS[v[1][1]]
    if v[0] == "op" and len(v) == 3 and v[1] in ("-", "+", "~"):
        x = fold(v[2]); return None if x is None else -x if v[1] == "-" else x if v[1] == "+" else float(~int(x))
    if v[0] == "op" and len(v) == 4:
        a, b = fold(v[2]), fold(v[3])
        if a is None or b is None: return None
        try: return {"+": a + b, "-": a - b, "*": a * b, "/": a / b}.get(v[1])
        except ZeroDivisionError: return None
    return None

class H(EvHooks):
    slice = False
    rich = True
    def __init__(self, P, S, f):
        EvHooks.__init__(self, P, relevant=lambda n: n["k"] == "call" and n.get("cls") == OL and (n.get("name") in GETS or n.get("name") in SETS), max_inline=2, cap=40, size=200)
        self.S = S; self.f = f
    def want_inline(self, ip, fn, call):
        if ip.trivial(fn): return True
        return fn["name"] in self.S.wrappers
    def mayreport(self, ip): return True
    def call(self, ip, st, n, obj, args):
        if n["k"] != "call": 
            self.flow(ip, st, n, args); return None
        if n.get("name") in PARAM and len(args) == 1:
            v = ip.val_of(st, args[0])
            if v[0] == "c":
                e = enumname(self.P, PARAM[n["name"]], v[1])
                if e: self.S.params.add(e); return [(st, ("opt", "@" + e, "param"))]
        if n.get("name") in ("min", "max") and len(args) == 2:
            return [(st, ("op", n["name"], ip.val_of(st, args[0]), ip.val_of(st, args[1])))]
        if n.get("cls") == OL and n.get("name") in GETS:
            nm = tail(ip.val_of(st, args[0]))
            if nm is None: 
                if not self.S.forwards(self.f, n): self.S.unknown.add((self.f["key"], n.get("l"), txt(n["a"][0])))
                return None
            kind = GETS[n["name"]]
            pv = ip.val_of(st, args[2]) if len(args) > 2 else None
            if pv is not None and peelv(pv) == ("str", "") and tail(ip.val_of(st, args[0])) == full(ip.val_of(st, args[0])): self.S.noprefix.append((nm, self.f, n.get("l")))
            self.S.use(nm, "get", kind, self.f, n, None)
            a = args[1]
            st = st.copy()
            v = ("opt", nm, kind)
            if a[0] == "lref":
                loc = ip.deref(st, a[1])
                self.dest(ip, st, n, loc, v, direct=True)
                ip.write(st, loc, v, n)
            return [(st, ("found", nm, ip.site(n)))]
        if n.get("cls") == OL and n.get("name") in SETS:
            nm = tail(ip.val_of(st, args[0]))
            if nm is None:
                if not self.S.forwards(self.f, n): self.S.unknown.add((self.f["key"], n.get("l"), txt(n["a"][0])))
                return None
            guarded = any(a[0] == "nz" and a[1][0] == "found" and a[1][1] == nm and not t for a, t in st.facts.items()) or "IfUnset" in n["name"] or (len(args) > 2 and ip.val_of(st, args[2]) == ZERO)
            self.S.sets.setdefault((nm, self.f["key"], n.get("l")), []).append((guarded, self.f))
            self.S.use(nm, "set", SETS[n["name"]], self.f, n, ip.val_of(st, args[1]))
            return None
        self.flow(ip, st, n, args)
        return None
    def flow(self, ip, st, n, args):
        for i, a in enumerate(args):
            v = ip.val_of(st, a)
            if not opts_in(v): continue
            q = ",".join(str(x[1]) for x in (ip.val_of(st, b) for b in args) if x[0] == "c" and len(args) == 2 and (n.get("name") or "").startswith("set"))
            for o in opts_in(v):
                self.S.target(o[1], "%s%s#%d" % (n.get("fn") or n.get("cls"), "(%s)" % q if q else "", i), self.f, n.get("l"), v[0] != "opt")
    def assign(self, ip, st, n, loc, val):
        self.dest(ip, st, n, loc, val)
    def dest(self, ip, st, n, loc, val, direct=False):
        for o in opts_in(val):
            d = where(ip, st, loc)
            if d: self.S.target(o[1], d, self.f, n.get("l"), peelv(val)[0] != "opt")

def opts_in(v):
    out = []
    if v[0] == "opt": return [v]
    if v[0] in ("op", "copy", "cat"):
        for x in v[1:]:
            if isinstance(x, tuple): out += opts_in(x)
    return out

def where(ip, st, loc):
    loc = ip.deref(st, loc)
    if loc[0] == "f": return "." + loc[2]
    if loc[0] == "e":
        b = loc[1]
        nm = b[1][2] if b[0] in ("i", "obj") and b[1][0] == "f" else None
        if nm in PARR and loc[2][0] == "c": return "@" + (enumname(ip.P, PARR[nm], loc[2][1]) or "?")
        if nm: return ".%s[%s]" % (nm, loc[2][1] if loc[2][0] == "c" else "?")
    return None

def peelv(v):
    while v[0] == "copy": v = v[1]
    return v

def enumname(P, en, v):
    for e in P.E.get(en, {}).get("v", ()):
        if e["v"] == v: return e["name"]
    return None

class S:
    def __init__(self, P, R): self.P = P; self.R = R; self.uses = []; self.targets = {}; self.unknown = set(); self.seen = set(); self.wrappers = set(); self.params = set(); self.noprefix = []; self.sets = {}
    def forwards(self, f, n):
        """The name is a parameter of a thin wrapper: judged at its call sites."""
        ps = {p["name"] for p in f["p"]}
        return any(x["k"] == "var" and x["name"] in ps for x in walk(n["a"][0]))
    def use(self, nm, op, kind, f, n, val):
        k = (nm, op, kind, f["key"], n.get("l"), val)
        if k in self.seen: return
        self.seen.add(k); self.uses.append((nm, op, kind, f, n.get("l"), val))
    def target(self, nm, d, f, l, changed=False):
        t = self.targets.setdefault(nm, {})
        if d not in t or t[d][2] and not changed: t[d] = (f, l, changed)

def registry(P, R):
    """Registered options, from the arguments of the Add...Option calls."""
    reg, extra, cats, order = {}, [], {}, []
    for f in sorted(P.F.values(), key=lambda f: (f["file"], f["l"])):
        if f.get("b") is None or not any(n["k"] == "call" and n.get("cls") in RO for n in P.calls(f)): continue
        if f.get("cls") in RO: continue
        class RH(EvHooks):
            slice = False
            rich = True
            def call(self, ip, st, n, obj, args):
                if n["k"] != "call" or n.get("cls") not in RO: return None
                nm = n["name"]; vs = [ip.val_of(st, a) for a in args]
                if nm == "SetRegisteringCategory": ip.cat = vs[0]; order.append(("cat", vs[0][1] if vs[0][0] == "str" else None, f, n.get("l"), cmpint(vs)))
                elif nm == "setOptionExtraInfo": extra.append((tail(vs[0]), f, n.get("l")))
                elif nm.startswith("Add"): add(nm, vs, f, n)
                return [(st, ("void",))]
        def cmpint(vs): return vs[1][1] if len(vs) > 1 and vs[1][0] == "c" else None
        def add(kind, vs, f, n):
            name = vs[0][1] if vs[0][0] == "str" else None
            if name is None: return
            o = {"name": name, "f": f, "l": n.get("l"), "lo": None, "lo_s": False, "hi": None, "hi_s": False, "values": None}
            t = lambda v: bool(v[1]) if v[0] == "c" else None
            if kind == "AddIntegerOption": o.update(kind="int", dflt=fold(vs[2]))
            elif kind == "AddLowerBoundedIntegerOption": o.update(kind="int", lo=fold(vs[2]), dflt=fold(vs[3]))
            elif kind == "AddUpperBoundedIntegerOption": o.update(kind="int", hi=fold(vs[2]), dflt=fold(vs[3]))
            elif kind == "AddBoundedIntegerOption": o.update(kind="int", lo=fold(vs[2]), hi=fold(vs[3]), dflt=fold(vs[4]))
            elif kind == "AddNumberOption": o.update(kind="num", dflt=fold(vs[2]))
            elif kind == "AddLowerBoundedNumberOption": o.update(kind="num", lo=fold(vs[2]), lo_s=t(vs[3]), dflt=fold(vs[4]))
            elif kind == "AddUpperBoundedNumberOption": o.update(kind="num", hi=fold(vs[2]), hi_s=t(vs[3]), dflt=fold(vs[4]))
            elif kind == "AddBoundedNumberOption": o.update(kind="num", lo=fold(vs[2]), lo_s=t(vs[3]), hi=fold(vs[4]), hi_s=t(vs[5]), dflt=fold(vs[6]))
            elif kind == "AddBoolOption": o.update(kind="str", dflt="yes" if t(vs[2]) else "no", values=["no", "yes"])
            else:
                m = re.match(r"AddStringOption(\d+)$", kind)
                if m:
                    k = int(m.group(1))
                    o.update(kind="str", dflt=vs[2][1] if vs[2][0] == "str" else None, values=[vs[3 + 2 * i][1] if vs[3 + 2 * i][0] == "str" else None for i in range(k)])
                elif kind == "AddStringOption": o.update(kind="str", dflt=vs[2][1] if vs[2][0] == "str" else None)
                else: return
            if name not in reg or reg[name]["f"]["key"] != f["key"] or reg[name]["l"] != o["l"]:
                reg.setdefault(name, o) if name not in reg else reg[name].setdefault("again", []).append(o)
        h = RH(P, relevant=lambda n: False); h.cap = 8
        ip = Interp(P, h)
        ip.run(f, St())
        R.ran(ip)
    return reg, extra, order

def conf():
    return json.load(open(CONF)) if os.path.exists(CONF) else {"external": [], "values": {}, "targets": {}}

def collect(P, R):
    s = S(P, R)
    s.wrappers = {f["name"] for f in P.F.values() if f.get("b") is not None and any(n["k"] == "call" and n.get("cls") == OL and n.get("name") in set(GETS) | set(SETS) and s.forwards(f, n) for n in P.calls(f))}
    nf = 0
    for f in sorted(P.F.values(), key=lambda f: (f["file"], f["l"])):
        if f.get("b") is None or "/src/" not in f["file"]: continue
        if not any(n["k"] == "call" and (n.get("cls") == OL and n.get("name") in set(GETS) | set(SETS) or n.get("name") in s.wrappers or n.get("name") in PARAM) for n in P.calls(f)): continue
        nf += 1
        h = H(P, s, f)
        ip = Interp(P, h)
        ip.run(f, St())
        R.ran(ip)
    return s, nf

# ---------------------------------------------------------------- documentation
def texnum(s):
    s = s.strip()
    if "inf" in s: return float("-inf") if "-inf" in s else float("inf")
    m = re.match(r"^(-?[\d.]+)\s*\\cdot\s*10\^\{([+-]?\d+)\}$", s)
    if m: return float(m.group(1)) * 10.0 ** int(m.group(2))
    m = re.match(r"^-?[\d.]+([eE][+-]?\d+)?$", s)
    return float(s) if m else None

def manual(path):
    """name -> {kind, default, lo, lo_s, hi, hi_s, values} as the user's manual states it."""
    out = {}
    if not os.path.exists(path): return out
    s = open(path, errors="replace").read()
    for blk in re.split(r"(?=\\paragraph\{)", s)[1:]:
        m = re.match(r"\\paragraph\{(.*?):\}", blk)
        if not m: continue
        name = m.group(1).replace("\\_", "_")
        d = {}
        m = re.search(r"The default value for this string option is \"(.*?)\"", blk)
        if m:
            d.update(kind="str", default=m.group(1).replace("\\_", "_"))
            d["values"] = [re.split(r"[:\n]", x.strip(), maxsplit=1)[0].strip().replace("\\_", "_") for x in re.findall(r"\\item ([^\n]*)", blk)]
            if re.search(r"\\item \*", blk): d["values"] = None
        else:
            m = re.search(r"The valid range for this (real|integer) option is\s*\$(.*?)\{\\tt (.*?)\}(.*?)\$\s*and its default value is \$(.*?)\$", blk, re.S)
            if not m: continue
            d["kind"] = "num" if m.group(1) == "real" else "int"
            lo, hi = m.group(2).strip(), m.group(4).strip()
            for key, t in (("lo", re.match(r"^(.*?)\s*(\\le|<)\s*$", lo, re.S)), ("hi", re.match(r"^(\\le|<)\s*(.*)$", hi, re.S))):
                if not t: continue
                a, b = (t.group(1), t.group(2)) if key == "lo" else (t.group(2), t.group(1))
                a = re.sub(r"\{\\tt\s*(.*?)\}", r"\1", a)
                d[key] = texnum(a); d[key + "_s"] = b == "<"
            d["default"] = texnum(m.group(5))
        out[name] = d
    return out

def close(a, b): return a is not None and b is not None and (a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)))

def val_ok(o, v):
    """Is the constant v accepted by option o? (None: cannot tell)"""
    if o["kind"] == "str":
        if v[0] != "str": return None
        if o["values"] is None: return True
        return any(x == "*" or x is not None and x.lower() == v[1].lower() for x in o["values"])
    x = fold(v)
    return None if x is None else in_range(o, x)

def in_range(o, x):
    if o["lo"] is not None and (x < o["lo"] or o["lo_s"] and x == o["lo"]): return False
    if o["hi"] is not None and (x > o["hi"] or o["hi_s"] and x == o["hi"]): return False
    return True

def run(P, R):
    cf = conf()
    R.rule("C03.known", "every option name read or set is registered by the library (or is an option of the NLP solver), and is read and set as the kind it was registered with")
    R.rule("C03.user", "an option the user set is read under the user's prefix and is overwritten by the library only where it was found unset (or in the presets of an algorithm)")
    R.rule("C03.default", "an option is registered once, its default lies in its range or list of values, and constants the code sets are accepted values")
    R.rule("C03.doc", "kind, default, range and list of values of each option in the user's manual are the registered ones")
    R.rule("C03.values", "symbolic values are registered in the order of the enumerators (or yes/no meaning) their index is interpreted as")
    R.rule("C03.extra", "attributes of options are attached to registered options")
    R.rule("C03.target", "the value read for an option is stored, unmodified, in the setting named after the option and reaches the component that honours it, and no option's value lands in another option's setting")
    reg, extra, order = registry(P, R)
    s, nf = collect(P, R)
    R.need(len(reg) >= 60, "registered options")
    R.need(len(s.uses) >= 100, "uses of options")
    R.need(cf.get("targets"), "engine/config/c03.json")
    R.count("options registered", len(reg)); R.count("reads and writes of options", len(s.uses)); R.count("functions using options", nf)
    ext = set(cf["external"])
    # names and kinds
    for nm, op, kind, f, l, val in s.uses:
        R.ob()
        if nm not in reg:
            if nm not in ext: R.v("C03.known", f, l, "%s option %s" % (op, nm), "option '%s' is %s here but registered nowhere: the call fails with an exception" % (nm, "read" if op == "get" else "set"))
            continue
        o = reg[nm]
        ok = kind == o["kind"] or kind == "bool" and o["values"] and {x.lower() for x in o["values"] if x} == {"yes", "no"}
        if not ok: R.v("C03.known", f, l, "%s option %s" % (op, nm), "option '%s' is registered as %s (%s:%s) but %s as %s" % (nm, o["kind"], rel(o["f"]), o["l"], "read" if op == "get" else "set", kind))
        elif op == "set" and val is not None:
            R.ob()
            if val_ok(o, val) is False: R.v("C03.default", f, l, "set option %s" % nm, "value %s is not accepted by option '%s'" % (val[1], nm))
    for key, l, t in sorted(s.unknown, key=str):
        R.sample("option name not constant: %s:%s %s" % (key, l, t))
    # the user's choice wins
    for nm, f, l in s.noprefix:
        R.ob()
        if nm in reg: R.v("C03.user", f, l, "get option %s" % nm, "option '%s' is read without the 'bonmin.' prefix users set it with" % nm)
    for (nm, key, l), gs in sorted(s.sets.items(), key=lambda x: (x[0][0], x[0][1], x[0][2] or 0)):
        R.ob()
        if not all(g for g, f in gs) and [nm, os.path.basename(gs[0][1]["file"])] not in cf.get("override", ()): R.v("C03.user", gs[0][1], l, "set option %s" % nm, "option '%s' is overwritten on a path where the user may have set it" % nm)
    # defaults
    for nm, o in sorted(reg.items()):
        R.ob()
        d = o["dflt"]
        for a in o.get("again", ()):
            if (a["kind"], a["dflt"], a["values"], a["lo"], a["hi"]) != (o["kind"], o["dflt"], o["values"], o["lo"], o["hi"]) or True:
                if a["f"]["key"] != o["f"]["key"]: R.v("C03.default", a["f"], a["l"], "register %s" % nm, "option '%s' is also registered at %s:%s: the second registration throws" % (nm, rel(o["f"]), o["l"]))
        if d is None: continue
        if o["kind"] == "str":
            if o["values"] and None not in o["values"]:
                if not any(x == "*" or x.lower() == d.lower() for x in o["values"]): R.v("C03.default", o["f"], o["l"], "register %s" % nm, "default '%s' of option '%s' is none of its values %s" % (d, nm, o["values"]))
                if len({x.lower() for x in o["values"]}) != len(o["values"]): R.v("C03.default", o["f"], o["l"], "register %s" % nm, "option '%s' lists a value twice: %s" % (nm, o["values"]))
        elif not in_range(o, d): R.v("C03.default", o["f"], o["l"], "register %s" % nm, "default %s of option '%s' is outside its range" % (d, nm))
        if o["lo"] is not None and o["hi"] is not None and o["lo"] > o["hi"]: R.v("C03.default", o["f"], o["l"], "register %s" % nm, "option '%s' has an empty range" % nm)
    # manual
    doc = manual("/repo/doc/options_list_bonmin_content.tex")
    R.count("options in the manual", len(doc))
    for nm, d in sorted(doc.items()):
        if nm in cf.get("doc_skip", ()): continue
        R.ob()
        o = reg.get(nm)
        if o is None:
            if nm not in ext and nm not in cf.get("doc_uncompiled", ()): R.v("C03.doc", None, None, "manual: %s" % nm, "the manual describes option '%s', which is registered nowhere" % nm)
            continue
        def bad(msg): R.v("C03.doc", o["f"], o["l"], "register %s" % nm, msg)
        if d["kind"] != o["kind"]: bad("the manual says '%s' is of kind %s, it is registered as %s" % (nm, d["kind"], o["kind"])); continue
        if o["kind"] == "str":
            if o["dflt"] is not None and d["default"].lower() != o["dflt"].lower(): bad("the manual gives '%s' as default of '%s', registered is '%s'" % (d["default"], nm, o["dflt"]))
            if d.get("values") and o["values"] and None not in o["values"]:
                miss = [x for x in d["values"] if x.lower() not in {y.lower() for y in o["values"]}]
                if miss: bad("value(s) %s of '%s' described in the manual are not accepted" % (miss, nm))
        else:
            if o["dflt"] is not None and d["default"] is not None and not close(d["default"], o["dflt"]): bad("the manual gives %g as default of '%s', registered is %g" % (d["default"], nm, o["dflt"]))
            for key, inf, name in (("lo", float("-inf"), "lower"), ("hi", float("inf"), "upper")):
                if d.get(key) is None: continue
                x = o[key] if o[key] is not None else inf
                if not close(x, d[key]): bad("the manual gives %g as %s limit of '%s', registered is %g" % (d[key], name, nm, x))
                elif o[key] is not None and bool(o[key + "_s"]) != bool(d[key + "_s"]): bad("manual and registration of '%s' disagree whether its %s limit %g is itself allowed" % (nm, name, x))
    # order of symbolic values
    for nm, m in sorted(cf["values"].items()):
        o = reg.get(nm)
        if o is None or not o["values"]: continue
        R.ob()
        en = P.E.get(m["enum"]) if m.get("enum") else None
        if m.get("enum"): R.need(en is not None, "enum %s" % m["enum"])
        have = {x["name"]: x["v"] for x in en["v"]} if en else None
        for val, want in m["map"].items():
            idx = next((i for i, x in enumerate(o["values"]) if x and x.lower() == val.lower()), None)
            if idx is None: continue
            w = have.get(want) if have is not None else want
            if w is None: continue
            if idx != w: R.v("C03.values", o["f"], o["l"], "register %s" % nm, "value '%s' of option '%s' has index %d but is interpreted as %s" % (val, nm, idx, "%s::%s = %d" % (m["enum"], want, w) if en else "index %d" % w))
    enumread = {u[0]: u for u in s.uses if u[1] == "get" and u[2] == "str"}
    for nm, o in sorted(reg.items()):
        if nm in cf["values"] or o["kind"] != "str" or not o["values"]: continue
        if {x.lower() for x in o["values"] if x} == {"yes", "no"}:
            R.ob()
            if o["values"][0].lower() != "no": R.v("C03.values", o["f"], o["l"], "register %s" % nm, "values of '%s' are registered as %s: index 1 reads as 'true' but means 'no'" % (nm, o["values"]))
        elif len(o["values"]) > 1 and nm in enumread: R.sample("no interpretation known for the order of '%s'" % nm)
    # attributes
    for nm, f, l in extra:
        R.ob()
        if nm is not None and nm not in reg: R.v("C03.extra", f, l, "setOptionExtraInfo(%s)" % nm, "attribute set on '%s', which is no registered option" % nm)
    named = [nm for nm, f, l in extra]
    for nm, f, l in extra:
        if nm in reg and named.count(nm) > 1 and (nm, f["key"]) not in {(a, b["key"]) for a, b, c in extra[:extra.index((nm, f, l))]}:
            R.sample("attributes of '%s' set %d times" % (nm, named.count(nm)))
    # where the values go
    want = cf["targets"]
    owners = {}
    for nm, ds in want.items():
        for d in ds: owners.setdefault(d, set()).add(nm)
    read = {u[0] for u in s.uses if u[1] == "get"} | {"@" + x for x in s.params}
    for nm in sorted(set(want) | set(s.targets)):
        got = {d: t for d, t in s.targets.get(nm, {}).items() if "operator<<" not in d}
        label = "parameter %s" % nm[1:] if nm.startswith("@") else "option '%s'" % nm
        for d, (f, l, ch) in sorted(got.items()):
            R.ob()
            if d in owners and nm not in owners[d]:
                R.v("C03.target", f, l, "%s -> %s" % (nm, d), "the value of %s goes to %s, the setting of %s" % (label, d, ", ".join(sorted(owners[d]))))
            elif nm in want and d in want[nm] and ch and not want[nm][d]:
                R.v("C03.target", f, l, "%s -> %s" % (nm, d), "the value of %s is altered before it reaches %s" % (label, d))
        if nm not in want: continue
        miss = [d for d in want[nm] if d not in got]
        new = [d for d in got if d not in want[nm] and d not in owners]
        if nm in reg or nm.startswith("@"):
            if miss and not new:
                o = reg.get(nm)
                R.v("C03.target", o["f"] if o else None, o["l"] if o else None, "%s -> %s" % (nm, miss[0]), "the value of %s no longer reaches %s: the option has no effect there" % (label, ", ".join(miss)))
    for nm, o in sorted(reg.items()):
        R.ob()
        if nm not in read and nm not in cf["unread"]: R.v("C03.target", o["f"], o["l"], "register %s" % nm, "option '%s' is registered but its value is read nowhere" % nm)
