"""Shared helpers for rules."""
import sys
from interp import Interp, Hooks, St, C, ZERO, ONE, UNK, mentions, cmpval, root, num
from model import txt, walk, peel, kids, rel
from extract import Broken

class EvHooks(Hooks):
    """Hooks with relevance-driven inlining: every repo helper that (transitively,
    through statically known calls) contains a construct matched by `relevant`
    is inlined, so extracting or merging helpers changes nothing."""
    def __init__(self, P, relevant=None, noinline=(), max_inline=5, cap=300, size=4000):
        self.P = P; self._rel = relevant; self._cache = {}
        self.noinline = set(noinline); self.max_inline = max_inline; self.cap = cap; self.maxsize = size
    slice = True
    def matters(self, ip, n): return bool(self._rel and self._rel(n))
    def contains(self, ip, f, seen=None):
        k = f["key"]
        if k in self._cache: return self._cache[k]
        self._cache[k] = False
        r = False
        for n in walk(f.get("b")):
            if self._rel(n): r = True; break
        if not r:
            for c in self.P.calls(f):
                g = self.P.target(c)
                if g is not None and g["key"] != k and g["fn"] not in self.noinline and self.contains(ip, g): r = True; break
        self._cache[k] = r
        return r
    def want_inline(self, ip, fn, call):
        if fn["fn"] in self.noinline: return False
        if ip.trivial(fn): return True
        if self._rel is not None and ip.size(fn) <= self.maxsize and self.contains(ip, fn): return True
        return False

def const_returns(P, R, f, params=None, fields=None, hooks=None):
    """Set of values a function may return when given parameters / fields have
    the given constant values (finite-domain evaluation)."""
    ip = Interp(P, hooks or EvHooks(P, relevant=lambda n: False))
    st = St()
    for p in f["p"]:
        if params and p["name"] in params: st.env[("v", "m", p["id"], p["name"])] = C(params[p["name"]])
    for k, v in (fields or {}).items(): st.env[("f", ("this",), k)] = C(v)
    res = ip.run(f, st)
    R.ran(ip)
    return [(k, s, v) for k, s, v in res]

def about_fields(*names):
    """keep-predicate: facts that mention one of these fields, globals or calls."""
    names = set(names)
    def pred(atom):
        return mentions(atom, lambda x: (x[0] == "f" and len(x) == 3 and x[2] in names) or (x[0] == "g" and x[1] in names)
                        or (x[0] in ("call", "pure", "out") and len(x) > 1 and isinstance(x[1], str) and x[1].split("::")[-1] in names) or (x[0] == "p" and x[1] in names))
    return pred

def isfield(v, name=None):
    """Value read from field `name` of this, unmodified."""
    return v[0] == "i" and v[1][0] == "f" and (name is None or v[1][2] == name)
