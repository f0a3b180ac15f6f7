"""C10 user callbacks get faithful arguments and their failures are reported."""
import itertools
from .common import *

NDEBUG = False
SIG = {
 "eval_f": "n x new_x >obj", "eval_grad_f": "n x new_x grad_f", "eval_g": "n x new_x m g",
 "eval_jac_g": "n x new_x m nele_jac iRow jCol values",
 "eval_h": "n x new_x obj_factor m lambda new_lambda nele_hess iRow jCol values",
 "eval_gi": "n x new_x i >gi", "eval_grad_gi": "n x new_x i >nele jCol values",
 "get_bounds_info": "n x_l x_u m g_l g_u", "get_starting_point": "n init_x x init_z z_L z_U m init_lambda lambda",
 "get_scaling_parameters": ">obj_scaling >use_x n x_scaling >use_g m g_scaling",
 "get_constraints_linearity": "m const_types", "get_variables_linearity": "n var_types", "get_variables_types": "n var_types",
 "get_nlp_info": ">n >m >nnz_jac >nnz_h >style",
}
SIG = {k: v.split() for k, v in SIG.items()}
FIN = {11: "status n x z_L z_U m g lambda obj_value ip_data ip_cq".split(), 4: "status n x obj_value".split()}
def sig(name, k): return FIN.get(k, []) if name == "finalize_solution" else SIG.get(name, [])
T2T, QUAD, LIN, FP = "Bonmin::TMINLP2TNLP", "Bonmin::TMINLP2TNLPQuadCuts", "Bonmin::TMINLPLinObj", "Bonmin::TNLP2FPNLP"
QP, STR, STD = "Bonmin::BranchingTQP", "Bonmin::CutStrengthener::StrengtheningTNLP", "Bonmin::StdInterfaceTMINLP"
ROWARR = {"g", "g_l", "g_u", "const_types", "lambda", "g_scaling"}      # one entry per row
JARR = {"iRow", "jCol", "values"}

# ---- polynomials over symbolic values ------------------------------------
def poly(v, sub):
    """Value as polynomial {sorted tuple of atoms: coefficient}; sub maps atoms."""
    if v[0] == "c" and isinstance(v[1], (int, float)): return {(): v[1]} if v[1] else {}
    if v[0] == "op" and len(v) == 4 and v[1] in ("+", "-"):
        a, b = poly(v[2], sub), poly(v[3], sub)
        return add(a, b, 1 if v[1] == "+" else -1)
    if v[0] == "op" and len(v) == 4 and v[1] == "*":
        a, b = poly(v[2], sub), poly(v[3], sub); out = {}
        for x, c in a.items():
            for y, d in b.items(): out = add(out, {tuple(sorted(x + y)): c * d})
        return out
    if v[0] == "op" and len(v) == 3 and v[1] == "-": return add({}, poly(v[2], sub), -1)
    if v[0] == "copy": return poly(v[1], sub)
    s = sub(v)
    if isinstance(s, dict): return s
    return {(str(s),): 1}
def add(a, b, k=1):
    out = dict(a)
    for x, c in b.items():
        out[x] = out.get(x, 0) + k * c
        if not out[x]: del out[x]
    return out
def A(name): return {(name,): 1}
def show(p): return " + ".join("%s%s" % ("" if c == 1 and x else c, "*".join(y[:60] for y in x)) for x, c in sorted(p.items())) or "0"

class Spec:
    """What a wrapper adds, as polynomials over the roles of the outer call."""
    def __init__(s, dn={}, dm={}, dJ={}, dH={}, row=0, joff={}, own=()):
        s.dn, s.dm, s.dJ, s.dH, s.row, s.joff, s.own = dn, dm, dJ, dH, row, joff, own

def configs(P):
    """(class, label, fields fixed to constants, Spec)"""
    out = [(T2T, "", {}, Spec()), (QUAD, "", {}, Spec(dm=A("#quadRows_"))), (LIN, "", {}, Spec(dn={(): 1}, dm={(): 1}, dJ=A("n"), row=1, joff=A("n"))), (QP, "", {}, Spec())]
    for fp, c, l, nm in itertools.product((0, 1), (0, 1), (0, 1), (1, 2)):
        dJ = add(A("n") if c else {}, A("#vals_") if l else {})
        out.append((FP, "pump=%d cutoff=%d local=%d norm=%d" % (fp, c, l, nm), {"use_feasibility_pump_objective_": fp, "use_cutoff_constraint_": c, "use_local_branching_constraint_": l, "norm_": nm},
                    Spec(dm={(): c + l} if c + l else {}, dJ=dJ, dH=A("#vals_") if fp and nm == 2 else {})))
    return out

# callbacks that must reach the wrapped model on every successful path
MUST = {T2T: {"eval_f", "eval_grad_f", "eval_g", "eval_jac_g", "eval_h", "eval_gi", "eval_grad_gi", "get_scaling_parameters", "get_constraints_linearity", "get_variables_linearity"},
        QUAD: {"eval_g", "eval_jac_g", "get_constraints_linearity", "get_bounds_info", "get_starting_point", "get_scaling_parameters", "get_nlp_info"},
        LIN: {"eval_g", "eval_jac_g", "eval_h", "get_bounds_info", "get_starting_point", "get_scaling_parameters", "get_constraints_linearity", "get_variables_linearity", "get_variables_types", "get_nlp_info", "finalize_solution"},
        FP: {"eval_f", "eval_grad_f", "eval_g", "eval_jac_g", "eval_h", "get_bounds_info", "get_starting_point", "get_constraints_linearity", "get_variables_linearity", "get_nlp_info", "finalize_solution"},
        QP: {"get_bounds_info", "finalize_solution"}, STR: {"get_nlp_info"}}
OWNFAIL = {(T2T, "get_starting_point"), (T2T, "get_warm_start_iterate"), (STR, "eval_h"), (STR, "get_nlp_info"), (T2T, "get_nlp_info")}
SAMEM = {(QUAD, "get_bounds_info"), (QUAD, "get_starting_point")}   # rows of cuts are kept by the parent itself

class H(EvHooks):
    rich = True; slice = False
    def __init__(self, P, f, cls, spec, label, fix, bad, rows):
        EvHooks.__init__(self, P, relevant=lambda n: inner(P, n, cls, f), max_inline=4, cap=400, size=3000)
        self.f, self.cls, self.spec, self.label, self.fix, self.bad, self.rows = f, cls, spec, label, fix, bad, rows
        self.roles = {}
        for p, r in zip(f["p"], sig(f["name"], len(f["p"]))): self.roles[p["name"]] = r.lstrip(">")
        self.n = 0
    def want_inline(self, ip, fn, call):
        if fn.get("cls") == self.cls and not inner(self.P, call, self.cls, self.f): return True
        if ip.trivial(fn): return not inner(self.P, call, self.cls, self.f)
        return EvHooks.want_inline(self, ip, fn, call)
    def sub(self, st):
        eqv = EQV.get(self.cls, {})
        def s(v):
            if v[0] == "p": return A(self.roles.get(v[1], "?" + v[1]))
            if v[0] == "i" and v[1][0] == "f" and v[1][1] == ("this",):
                x = v[1][2]
                if x in eqv: return A(eqv[x])
                return A(x)
            if v[0] == "pure" and v[1].split("::")[-1] == "size" and v[2][0][0] == "obj" and v[2][0][1][0] == "f":
                x = v[2][0][1][2]
                return A("#" + ("vals_" if x == "inds_" else x))
            if v[0] == "i" and v[1][0] == "e":
                b, i = poly(v[1][1], s), poly(v[1][2], s)
                return A("%s[%s]" % (show(b), show(i)))
            return v
        return s
    def err(self, rule, n, cons, msg, st): self.bad.append((rule, n, cons, "%s%s" % (msg, " (%s)" % self.label if self.label else ""), st))
    def call(self, ip, st, n, obj, args):
        if not inner(self.P, n, self.cls, self.f):
            k = {"CoinFillN": 2, "fill_n": 2, "fill": 2, "CoinIotaN": 2}.get(n.get("name"))
            if self.rows is not None and k and len(args) == 3 and not n.get("obj"):      # a fill is a loop of assignments
                v = [ip.val_of(st, a) if a[0] == "lref" else a for a in args]
                self.rows.append((ip, st, n, poly(v[0], self.sub(st)), {("k",): 1}, v[k]))
            return None
        self.n += 1
        name = n["name"] if n.get("name") else None
        st = st.copy()
        st.note(n.get("l"), "evaluation %s of the wrapped model" % name)
        if n.get("fn") == self.f["fn"] and (n.get("obj") is None or peel(n["obj"])["k"] == "this"):
            self.err("C10.args", n, name, "%s calls itself instead of the wrapped model" % name, st); return [(st, ONE)]
        roles = sig(name, len(args)); me = self.f["name"]; sp = self.spec; sub = self.sub(st)
        if self.cls not in (STR, STD): self.args(ip, st, n, name, roles, args, sub, me, sp)
        st.ts["inner:" + name] = True
        # outputs
        void = n.get("t") == "void" or name == "finalize_solution"
        ok = self.outs(ip, st.copy(), n, name, args)
        if void: return [(ok, ("void",))]
        ko = self.outs(ip, st.copy(), n, name, args); ko.ts["failed"] = (name, n.get("l")); ko.note(n.get("l"), "%s reports failure" % name)
        return [(ok, ONE), (ko, ZERO)]
    def outs(self, ip, st, n, name, args):
        for k, a in enumerate(args):
            if a[0] == "lref" and (n.get("how") or "")[k:k + 1] == "r": ip.write(st, ip.deref(st, a[1]), ("out", n.get("fn"), k, ip.site(n)), n)
        return st
    def args(self, ip, st, n, name, roles, args, sub, me, sp):
        phase = self.fix.get("phase")
        for r, a in zip(roles, args):
            v = ip.val_of(st, a) if a[0] == "lref" and not r.startswith(">") else a
            def bad(msg): self.err("C10.args", n, "%s/%s" % (name, r.lstrip(">")), "%s of the wrapped model is given %s" % (name, msg), st)
            if r.startswith(">"):
                if a[0] == "lref" and name == me and r not in (">obj_scaling",):
                    loc = ip.deref(st, a[1])
                    if loc[0] == "v" and self.roles.get(loc[3]) != r[1:] and loc[3] in self.roles: bad("the wrong output argument")
                continue
            if r == "n": want = add(A("n"), sp.dn, -1)
            elif r == "m": want = add(A("m"), {} if (self.cls, me) in SAMEM else sp.dm, -1)
            elif r == "x":
                if self.cls == QP: continue
                want = A("x")
            elif r == "new_x":
                p = poly(v, sub)
                if p == A("new_x") or p == {(): 1} or ip.truth(st, v) is True and "new_x" not in self.roles.values(): st.ts["x"] = True; continue
                if p == {} and st.ts.get("x"): continue
                if phase == "structure": continue
                bad("new_x = %s although the point may be new" % show(p)); continue
            elif r == "nele_jac": want = A("nnz_jac_g_") if self.cls == QUAD else add(A("nele_jac"), sp.dJ, -1)
            elif r == "nele_hess": want = A("nnz_h_lag_") if self.cls == QUAD else add(A("nele_hess"), sp.dH, -1)
            elif r == "i": want = add(A("i"), {(): sp.row} if sp.row else {}, -1)
            elif r == "obj_factor":
                if phase == "structure": continue
                want = self.factor(ip, st)
                if want is None: continue
            elif r in ROWARR or r in JARR or r in ("grad_f",):
                if name == "eval_grad_f" and me != name:
                    continue
                off = ({(): sp.row} if sp.row else {}) if r in ROWARR else sp.joff if name == "eval_jac_g" else {}
                outer = [k for k, q in self.roles.items() if q == r]
                t = ip.truth(st, ("p", outer[0])) if outer else None
                if outer and (outer[0] in self.fix.get("null", ())): want = {}
                elif t is False: want = {}
                else: want = add(A(r), off)
                p = poly(v, sub)
                if t is None and outer and outer[0] not in self.fix.get("null", ()) and p != want and p == {}: bad("no %s array although one was given" % r); continue
                if self.fix.get("free") and r in self.fix["free"] and off and t is None:
                    bad("an offset into array %s that may not be given" % r); continue
            elif r in ("init_x", "init_z", "init_lambda", "new_lambda", "x_l", "x_u", "z_L", "z_U", "var_types", "x_scaling", "status", "ip_data", "ip_cq"):
                outer = [k for k, q in self.roles.items() if q == r]
                want = {} if outer and outer[0] in self.fix.get("null", ()) else A(r)
                if outer and outer[0] in self.fix.get("set", ()): want = {(): 1}
            elif r == "obj_value":
                want = None
                p = poly(v, sub)
                if self.cls == QP:
                    if p != A("obj_value") and p != add(A("obj_value"), A("obj_val_")): bad(show(p))
                elif p != A("obj_value"): bad("another objective value")
                continue
            else: continue
            if r in ("obj_factor",) and isinstance(want, list):
                if poly(v, sub) not in want: bad("factor %s instead of %s" % (show(poly(v, sub)), show(want[0])))
                continue
            got = poly(v, sub)
            if got != want: bad("%s = %s instead of %s" % (r, show(got), show(want)))
    def factor(self, ip, st):
        if self.cls == FP:
            w = A("obj_factor")
            if self.fix["use_feasibility_pump_objective_"]: w = add({("obj_factor", "sigma_"): 1}, {("lambda_", "obj_factor", "sigma_"): -1})
            if self.fix["use_cutoff_constraint_"]: w = add(w, A("lambda[%s]" % show(add(A("m"), {(): -1 - self.fix["use_local_branching_constraint_"]}))))
            return w
        if self.cls == LIN: return A("lambda[0]")
        if self.cls == QUAD:
            for a, b in st.facts.items():
                if a[0] == "nz" and mentions(a, lambda x: x[0] == "f" and len(x) == 3 and x[2] == "obj_"):
                    empty = b if mentions(a, lambda x: x[0] in ("pure", "call") and str(x[1]).split("::")[-1] == "empty") else not b
                    return [A("obj_factor")] if empty else [{}]
            return [A("obj_factor"), {}]
        return A("obj_factor")
    def assign(self, ip, st, n, loc, val):
        if self.rows is None: return
        if loc[0] == "e": self.rows.append((ip, st, n, poly(loc[1], self.sub(st)), poly(loc[2], self.sub(st)), val))

EQV = {}
def inner(P, n, cls, f):
    """Call of a callback of the wrapped model: on another object, or of the parent."""
    if n["k"] != "call" or n.get("name") not in SIG and n.get("name") != "finalize_solution": return False
    c = n.get("cls") or ""
    if c not in P.C and c not in ("Ipopt::TNLP", "Bonmin::TMINLP"): return False
    fam = {c} | set(P.bases(c))
    if not fam & {"Ipopt::TNLP", "Bonmin::TMINLP"}: return False
    o = n.get("obj")
    onthis = o is None or peel(o)["k"] == "this"
    if onthis: return c != cls or n.get("fn") == f["fn"]
    return True

def phases(f):
    """Argument phases of a callback: which pointers are given."""
    nm = f["name"]; pn = [p["name"] for p in f["p"]]; s = sig(nm, len(pn))
    by = {r: p for r, p in zip(s, pn)}
    if nm == "eval_jac_g": return [("structure", [by["values"]], [by["iRow"], by["jCol"]]), ("values", [by["iRow"], by["jCol"]], [by["values"], by["x"]])]
    if nm == "eval_h": return [("structure", [by["values"], by["lambda"]], [by["iRow"], by["jCol"]]), ("values", [by["iRow"], by["jCol"]], [by["values"], by["x"], by["lambda"]])]
    if nm == "eval_grad_gi": return [("structure", [by["values"]], [by["jCol"]]), ("values", [by["jCol"]], [by["values"], by["x"]]), ("both", [], [by["values"], by["jCol"], by["x"]])]
    if nm == "get_starting_point": return [("no multipliers", [by["lambda"], by["init_lambda"], by["z_L"], by["z_U"], by["init_z"]], [by["x"], by["init_x"]]), ("multipliers", [], [by[r] for r in ("lambda", "init_lambda", "x", "init_x", "z_L", "z_U", "init_z")])]
    if nm == "get_scaling_parameters": return [("no arrays", [by["g_scaling"], by["x_scaling"]], []), ("arrays", [], [by["g_scaling"], by["x_scaling"]])]
    return [("", [], [])]

def setup(P, f, fix, null, nn):
    st = St()
    for p in f["p"]:
        if p["name"] in null: st.env[("v", "m", p["id"], p["name"])] = ZERO
        elif p["name"] in nn:
            if p["ct"] in ("bool", "_Bool"): st.env[("v", "m", p["id"], p["name"])] = ONE
            else: st.facts[("nz", ("p", p["name"]))] = True
    for k, v in fix.items(): st.env[("f", ("this",), k)] = C(v)
    return st

def sizes(P, R):
    """get_nlp_info: which members hold the reported sizes, and that the extra
    rows, columns and entries reported are the ones passed over elsewhere."""
    for cls, label, fix, sp in configs(P):
        if cls in (T2T, QP): continue
        for f in methods(P, cls, "get_nlp_info"):
            h = H(P, f, cls, sp, label, dict(fix), [], None)
            ip = Interp(P, h); res = ip.run(f, setup(P, f, fix, (), ())); R.ran(ip)
            for kind, st, v in res:
                if kind != "ret" or st.ts.get("failed"): continue
                R.ob()
                site = {}
                vals = {}
                for p, r in zip(f["p"], SIG["get_nlp_info"]): vals[r[1:]] = ip.read(st, ip.deref(st, ("v", "m", p["id"], p["name"])))
                def inner_out(v, k): return v[0] == "out" and v[2] == k
                def sub(v):
                    if v[0] == "out": return A({0: "n", 1: "m", 2: "nele_jac", 3: "nele_hess", 4: "style"}[v[2]])
                    return h.sub(st)(v)
                for k, (r, nm, d) in enumerate((("n", "n", sp.dn), ("m", "m", sp.dm), ("nnz_jac", "nele_jac", sp.dJ), ("nnz_h", "nele_hess", sp.dH))):
                    v = vals[r]
                    if v[0] == "i" and v[1][0] == "f": EQV.setdefault(cls, {})[v[1][2]] = nm; continue
                    got = poly(v, sub)
                    if cls == QUAD: 
                        if r == "nnz_h" and got == A("#H_") or got == A(nm): continue
                    want = add(A(nm), d)
                    if got != want: R.v("C10.sizes", f, f["l"], "%s %s" % (r, label), "get_nlp_info reports %s = %s instead of %s (%s)" % (r, show(got), show(want), label), st.path())
                if poly(vals["style"], sub) != A("style"): R.v("C10.sizes", f, f["l"], "style", "get_nlp_info does not report the index style of the wrapped model", st.path())
    # the members of the linear-objective wrapper hold what the wrapped model has plus the extra variable and row
    for f in methods(P, LIN, "setTminlp"):
        h = H(P, f, LIN, Spec(), "", {}, [], None)
        ip = Interp(P, h); res = ip.run(f, St()); R.ran(ip)
        for kind, st, v in res:
            if kind != "ret" or st.ts.get("failed"): continue
            def sub(v):
                if v[0] == "out": return A({0: "n", 1: "m", 2: "nele_jac", 3: "nele_hess", 4: "style"}[v[2]])
                return h.sub(st)(v)
            for fld, nm in sorted(EQV.get(LIN, {}).items()):
                R.ob()
                want = {"n": add(A("n"), {(): 1}), "m": add(A("m"), {(): 1}), "nele_jac": add(add(A("nele_jac"), A("n")), {(): 1})}.get(nm)
                got = poly(ip.read(st, ("f", ("this",), fld)), sub)
                if want is not None and got != want: R.v("C10.sizes", f, f["l"], fld, "%s = %s instead of %s" % (fld, show(got), show(want)), st.path())

def methods(P, cls, name=None):
    return [f for f in P.F.values() if f.get("cls") == cls and f.get("b") is not None and not f.get("ctor") and (name is None or f["name"] == name)]

def run(P, R):
    R.rule("C10.fail", "for every callback of every wrapper and every outcome of each inner evaluation: failure is returned exactly if an inner evaluation failed")
    R.rule("C10.args", "each inner evaluation gets the sizes, point, multipliers, factors and arrays of the outer call, changed only by the wrapper's own rows, columns and entries")
    R.rule("C10.reach", "a callback that reports success has passed the evaluation on to the wrapped model")
    R.rule("C10.sizes", "the sizes a wrapper reports are those of the wrapped model plus its own rows, columns and entries")
    R.rule("C10.rows", "the wrapper's own rows use the same position in every callback")
    EQV.clear()
    sizes(P, R)
    ncb = ninner = 0
    seen = set()
    for cls, label, fix, sp in configs(P) + [(STR, "", {}, Spec())]:
        for f in sorted(methods(P, cls), key=lambda f: f["l"]):
            if f["name"] not in SIG and f["name"] != "finalize_solution": continue
            if not sig(f["name"], len(f["p"])): continue
            for (ph, null, nn), style in itertools.product(phases(f), (0, 1) if cls == FP and f["name"] == "eval_jac_g" else (None,)):
                if cls == STR and f["name"] == "get_starting_point": continue
                bad = []; rows = [] if cls == FP else None
                fx = dict(fix); fx["phase"] = ph; fx["null"] = null; fx["set"] = [p["name"] for p in f["p"] if p["name"] in nn and p["ct"] in ("bool", "_Bool")]
                h = H(P, f, cls, sp, " ".join(x for x in (label, ph) if x), fx, bad, rows)
                ip = Interp(P, h)
                st0 = setup(P, f, fix, null, nn)
                if style is not None: st0.env[("f", ("this",), "index_style_")] = C(style)
                res = ip.run(f, st0); R.ran(ip)
                seen.add((cls, f["name"])); ninner += h.n; R.ob()
                for rule, n, cons, msg, st in bad: R.v(rule, f, n.get("l"), cons, msg, st.path())
                if cls == FP: ownrows(P, R, f, fix, ph, rows, label, style)
                void = f["ret"] == "void"
                for kind, st, v in res:
                    if kind != "ret": continue
                    R.ob()
                    t = None if void else ip.truth(st, v)
                    fl = st.ts.get("failed")
                    if not void:
                        if fl and t is not False: R.v("C10.fail", f, fl[1], "%s/failure" % fl[0], "%s of the wrapped model fails, but %s does not report failure" % (fl[0], f["name"]), st.path())
                        if not fl and t is not True and (cls, f["name"]) not in OWNFAIL: R.v("C10.fail", f, f["l"], "%s/success" % f["name"], "%s does not report success although no evaluation failed" % f["name"], st.path())
                    if not fl and (void or t is True) and f["name"] in MUST.get(cls, ()) and not st.ts.get("inner:" + f["name"]):
                        if cls == LIN and f["name"] == "eval_grad_gi": continue
                        R.v("C10.reach", f, f["l"], f["name"], "%s succeeds without asking the wrapped model (%s)" % (f["name"], ph or label or "always"), st.path())
    R.atleast("callbacks of wrappers analysed", len(seen), 45)
    R.atleast("inner evaluations seen", ninner, 100)
    std(P, R)
    fresh(P, R)

def ownrows(P, R, f, fix, ph, rows, label, style=None):
    """Positions of the cutoff and local-branching rows of the feasibility problem."""
    c, l = fix["use_cutoff_constraint_"], fix["use_local_branching_constraint_"]
    rc = add(A("m"), {(): -1 - l}); rl = add(A("m"), {(): -1})
    nm = f["name"]
    def put(arr): return [(n, b, i, v, ip, st) for ip, st, n, b, i, v in rows if A(arr) == b or any(k == (arr,) for k in b)]
    want = {"get_bounds_info": ("g_u", "g_l"), "eval_g": ("g",), "get_constraints_linearity": ("const_types",), "get_starting_point": ("lambda",)}.get(nm)
    if want:
        for arr in want:
            if nm == "get_starting_point" and ph != "multipliers": continue
            got = {}
            for n, b, i, v, ip, st in put(arr): got.setdefault(show(add(i, add(b, A(arr), -1))), []).append((n, v, st))
            exp = ([show(rc)] if c else []) + ([show(rl)] if l else [])
            R.ob()
            if sorted(got) != sorted(exp): R.v("C10.rows", f, f["l"], "%s %s" % (arr, label), "%s sets rows %s of %s instead of %s (%s)" % (nm, sorted(got), arr, exp, label), None); continue
            for k, ws in got.items():
                cut = c and k == show(rc)
                for n, v, st in ws:
                    if nm == "get_bounds_info" and arr == "g_u":
                        fld = "cutoff_" if cut else "rhs_local_branching_constraint_"
                        if not isfield(v, fld): R.v("C10.rows", f, n.get("l"), "g_u/" + fld, "the %s row does not get %s as its bound" % ("cutoff" if cut else "local branching", fld), st.path())
                    if nm == "eval_g" and cut != (v[0] == "out"): R.v("C10.rows", f, n.get("l"), "g/%d" % cut, "the %s row gets the value of the other row" % ("cutoff" if cut else "local branching"), st.path())
                    if nm == "get_constraints_linearity" and v[0] == "c" and bool(v[1]) != bool(cut): R.v("C10.rows", f, n.get("l"), "linearity/%d" % cut, "the %s row is declared %s" % ("cutoff" if cut else "local branching", "linear" if cut else "nonlinear"), st.path())
    if nm == "eval_jac_g" and ph == "structure" and (c or l):
        # entries: iRow + base + i with row number
        ent = {}
        for n, b, i, v, ip, st in put("iRow"): ent.setdefault(show(add(b, A("iRow"), -1)), set()).add(show(poly(v, lambda x: RS(x, f))))
        exp = {}
        base = add(A("nele_jac"), add(A("n") if c else {}, A("#vals_") if l else {}), -1)
        if c: exp[show(base)] = {show(add(rc, {(): style} if style else {}))}
        if l: exp[show(add(base, A("n")) if c else base)] = {show(add(rl, {(): style} if style else {}))}
        R.ob()
        got = {k: {x for x in v} for k, v in ent.items()}
        if got != exp: R.v("C10.rows", f, f["l"], "iRow " + label, "the entries of the extra rows are placed at %s instead of %s (%s)" % (fmt(got), fmt(exp), label), None)
    if nm == "eval_jac_g" and ph == "values" and (c or l):
        got = sorted({show(add(b, A("values"), -1)) for n, b, i, v, ip, st in put("values")})
        base = add(A("nele_jac"), add(A("n") if c else {}, A("#vals_") if l else {}), -1)
        exp = sorted(([show(base)] if c else []) + ([show(add(base, A("n")) if c else base)] if l else []))
        R.ob()
        if got != exp: R.v("C10.rows", f, f["l"], "values " + label, "the values of the extra rows are placed at %s instead of %s (%s)" % (got, exp, label), None)

def fmt(d): return "; ".join("%s: %s" % (k, ",".join(sorted(v))) for k, v in sorted(d.items())) or "nowhere"
def RS(v, f):
    if v[0] == "p":
        for p, r in zip(f["p"], sig(f["name"], len(f["p"]))):
            if p["name"] == v[1]: return A(r.lstrip(">"))
    return v

def std(P, R):
    """C interface: the user's functions get the arguments of the call, and
    their result is the result."""
    k = 0
    for f in sorted(methods(P, STD), key=lambda f: f["l"]):
        if f["name"] not in SIG or not f["name"].startswith("eval"): continue
        by = [p["name"] for p in f["p"]]
        calls = []
        class SH(EvHooks):
            rich = True; slice = False
            def want_inline(self, ip, fn, call): return fn.get("cls") == STD
            def call(self, ip, st, n, obj, args):
                if n["k"] != "call" or n.get("fn") or "cal" not in n: return None
                st = st.copy(); fld = [x for x in walk(n["cal"]) if x["k"] == "mem"]
                nm = fld[0]["f"].rstrip("_") if fld else "?"
                calls.append((n, nm, [ip.val_of(st, a) for a in args], args, st, ip))
                st.ts["called"] = True
                ko = st.copy(); ko.ts["failed"] = n.get("l"); ko.note(n.get("l"), "the user's function reports failure")
                return [(st, ONE), (ko, ZERO)]
            def assign(self, ip, st, n, loc, val):
                if loc[0] == "e" and mentions(loc[1], lambda x: x[0] == "f" and len(x) == 3 and x[2] == "non_const_x_" or x[0] == "new") and mentions(val, lambda x: x == ("p", by[1])): st.ts["copied"] = True
        for ph, null, nn in phases(f):
            calls[:] = []
            h = SH(P, relevant=lambda n: False)
            ip = Interp(P, h); res = ip.run(f, setup(P, f, {}, null, nn)); R.ran(ip)
            for kind, st, v in res:
                if kind != "ret": continue
                R.ob()
                t = ip.truth(st, v)
                if st.ts.get("failed") and t is not False: R.v("C10.fail", f, st.ts["failed"], f["name"] + "/failure", "the user's function fails, but %s does not report failure" % f["name"], st.path())
                if not st.ts.get("failed") and t is not True: R.v("C10.fail", f, f["l"], f["name"] + "/success", "%s does not report success" % f["name"], st.path())
                if not st.ts.get("called"): R.v("C10.reach", f, f["l"], f["name"], "%s succeeds without calling the user's function (%s)" % (f["name"], ph), st.path())
            cop = False
            for n, nm, vs, raw, st, ip2 in calls:
                k += 1
                if st.ts.get("copied"): cop = True
                if nm != f["name"]: R.v("C10.args", f, n.get("l"), nm, "%s calls the user's function %s" % (f["name"], nm), st.path())
                for j, p in enumerate(by):
                    if j >= len(vs): R.v("C10.args", f, n.get("l"), "count", "an argument is missing", st.path()); break
                    v = vs[j]
                    if v[0] == "copy": v = v[1]
                    if j == 1:
                        if not (isfield(v, "non_const_x_") or v[0] == "new"): R.v("C10.args", f, n.get("l"), "x", "the user's function gets another point", st.path())
                        continue
                    r = sig(f["name"], len(by))[j]
                    if r.startswith(">"):
                        if not (raw[j][0] == "addr" and raw[j][1][0] == "v" and raw[j][1][3] == p): R.v("C10.args", f, n.get("l"), p, "the result does not go to %s" % p, st.path())
                        continue
                    if r == "lambda" and (v[0] == "new"): continue
                    if p in null and v == ZERO: continue
                    pbool = f["p"][j]["ct"] in ("bool", "_Bool")
                    if pbool and v[0] == "c" and ip2.truth(st, ("p", p)) in (None, bool(v[1])) and ip2.truth(st, ("p", p)) is not None: continue
                    if pbool and mentions(v, lambda x: x == ("p", p)): continue
                    if v != ("p", p): R.v("C10.args", f, n.get("l"), p, "the user's function gets %s for %s" % (str(v)[:60], p), st.path())
            if calls and ph != "structure" and not cop: R.v("C10.args", f, f["l"], "x/copy", "the point handed to the user's function is never brought up to date when it is new", None)
    R.atleast("calls of user functions of the C interface", k, 5)

def fresh(P, R):
    """Strengthening problem: the full point is brought up to date before each evaluation."""
    k = 0
    for f in methods(P, STR):
        if f["name"] not in ("eval_g", "eval_jac_g"): continue
        bad = []
        class FH(EvHooks):
            rich = True
            def want_inline(self, ip, fn, call): return fn.get("cls") == STR
            def assign(self, ip, st, n, loc, val): pass
            def call(self, ip, st, n, obj, args):
                if n["k"] == "call" and n.get("name") in SIG and n.get("cls") == "Bonmin::TMINLP":
                    s = sig(n["name"], len(args)); d = dict(zip(s, args))
                    if not isfield(ip.val_of(st, d["x"]), "x_full_") or not isfield(ip.val_of(st, d["n"]), "n_orig_"): bad.append((n, "x", "the wrapped model is not evaluated at the full point", st))
                    p = ip.val_of(st, d["new_x"])
                    if p != ("p", f["p"][2]["name"]) and p != ONE: bad.append((n, "new_x", "new_x is not passed on", st))
                    if "i" in d and not isfield(ip.val_of(st, d["i"]), "constr_index_"): bad.append((n, "i", "another constraint is evaluated", st))
                    if not st.ts.get("up"): bad.append((n, "stale", "the full point is not brought up to date first", st))
                return None
            def after_call(self, ip, st, n, obj, args, val): pass
            def loop(self, ip, st, n):
                for x in walk(n):
                    if x["k"] == "assign" and any(y["k"] == "mem" and y["f"] == "x_full_" for y in walk(x["a"])) : st.ts["up"] = True
        h = FH(P, relevant=lambda n: n["k"] == "call" and n.get("name") in SIG or n["k"] == "mem" and n["f"] == "x_full_")
        ip = Interp(P, h); ip.run(f, St()); R.ran(ip); k += 1; R.ob()
        for n, c, m, st in bad: R.v("C10.args", f, n.get("l"), c, m, st.path())
    R.atleast("evaluations of the strengthening problem", k, 2)
