"""Builds the clang front end tool if needed and extracts the resolved program
of /repo's current working tree (all translation units of the library)."""
import hashlib, json, os, subprocess, sys, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"
REPO = os.environ.get("BONVERIF_REPO", "/repo")

class Broken(Exception):
    """The analysis could not be carried out (distinct from a violation)."""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def build_tool():
    src = os.path.join(HERE, "bonfacts.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "bonfacts-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    flags = sh([LLVM + "/bin/llvm-config", "--cxxflags"]).stdout.decode().split()
    flags = [f for f in flags if not f.startswith("-O")]
    tmp = exe + ".%d.tmp" % os.getpid()
    r = sh([LLVM + "/bin/clang++", "-O0", "-fno-rtti", "-w"] + flags +
           [src, "-o", tmp, LLVM + "/lib/libclang-cpp.so.18.1",
            "-L" + LLVM + "/lib", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"])
    if r.returncode != 0:
        raise Broken("cannot build bonfacts: " + r.stderr.decode()[-2000:])
    os.rename(tmp, exe)
    return exe

# Directories whose sources make up libbonmin in this build (the others need
# ASL, FilterSQP or Cplex, none of which exist here).
LIBDIRS = ["src/Interfaces", "src/Interfaces/Ipopt", "src/Algorithms",
           "src/Algorithms/Branching", "src/Algorithms/OaGenerators",
           "src/Algorithms/QuadCuts", "src/CbcBonmin", "src/CbcBonmin/Heuristics"]
UNSUPPORTED = {"BonCurvBranchingSolver.cpp", "BonCurvatureEstimator.cpp"}  # #error in their headers

def units():
    out = []
    for d in LIBDIRS:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            if os.path.basename(f) not in UNSUPPORTED:
                out.append(f)
    return out

def cflags(extra=()):
    cfg = os.path.join(REPO, "_build/src/Interfaces")
    if not os.path.exists(os.path.join(cfg, "config_bonmin.h")):
        cfg = os.path.join(HERE, "config")
    inc = ["-I" + cfg]
    for d in LIBDIRS:
        inc.append("-I" + os.path.join(REPO, d))
    return ["-resource-dir", LLVM + "/lib/clang/18", "-w", "-std=gnu++17",
            "-DHAVE_CONFIG_H", "-DBONMINLIB_BUILD", "-DHAVE_CSTDDEF"] + list(extra) + inc + ["-I/usr/include/coin"]

def header_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".hpp", ".h")):
                p = os.path.join(base, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def run_cached(exe, src, flags, root, hh):
    k = hashlib.sha256((hh + exe + src + " ".join(flags)).encode() + open(src, "rb").read()).hexdigest()[:24]
    c = os.path.join(BUILD, "units", k + ".json")
    if os.path.exists(c):
        try: return json.load(open(c))
        except Exception: pass
    r = run_tool(exe, src, flags, root)
    os.makedirs(os.path.join(BUILD, "units"), exist_ok=True)
    tmp = c + ".%d.tmp" % os.getpid()
    json.dump(r, open(tmp, "w")); os.rename(tmp, c)
    return r

def age(f):
    try: return os.path.getmtime(f)
    except OSError: return 0

def prune():
    fs = sorted(glob.glob(os.path.join(BUILD, "units", "*.json")), key=age)
    for f in fs[:-600]:
        try: os.remove(f)
        except OSError: pass

def run_tool(exe, src, flags, root):
    r = sh([exe, root, src, "--"] + flags)
    if r.returncode != 0:
        raise Broken("%s does not parse:\n%s" % (src, r.stderr.decode()[-1500:]))
    return json.loads(r.stdout)

def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".hpp", ".h", ".c")):
                p = os.path.join(base, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(open(os.path.join(HERE, "bonfacts.cpp"), "rb").read())
    return h.hexdigest()[:20]

def extract(extra=()):
    exe = build_tool()
    us = units()
    if len(us) < 40:
        raise Broken("only %d translation units found under %s/src" % (len(us), REPO))
    key = tree_hash() + hashlib.sha256(" ".join(extra).encode()).hexdigest()[:6]
    cache = os.path.join(BUILD, "facts-%s.json" % key)
    if os.path.exists(cache):
        try:
            return json.load(open(cache))
        except Exception:
            pass
    fl = cflags(extra)
    with ThreadPoolExecutor(max_workers=8) as ex:
        hh = header_hash()
        res = list(ex.map(lambda u: run_cached(exe, u, fl, os.path.join(REPO, "src"), hh), us))
    prune()
    F, C, E, G = {}, {}, {}, {}
    for u, items in zip(us, res):
        for d in items:
            k = d["kind"]
            if k == "function":
                key2 = d["m"]
                # functions with internal linkage may share a name across files
                if key2 in F and (F[key2]["file"], F[key2]["l"]) != (d["file"], d["l"]):
                    key2 = d["m"] + "@" + os.path.basename(d["file"])
                d["key"] = key2
                d["tu"] = os.path.basename(u)
                F.setdefault(key2, d)
            elif k == "class": C.setdefault(d["qn"], d)
            elif k == "enum": E.setdefault(d["qn"], d)
            elif k == "global": G.setdefault(d.get("q", d["name"]) + "@" + os.path.basename(d["file"]), d)
    out = {"F": F, "C": C, "E": E, "G": G, "units": [os.path.relpath(u, REPO) for u in us]}
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, "facts-*.json")):
        try: os.remove(old)
        except OSError: pass
    tmp = cache + ".%d.tmp" % os.getpid()
    json.dump(out, open(tmp, "w"))
    os.rename(tmp, cache)
    return out

def extract_file(path, root, extra=()):
    """Facts of one stand-alone file (used by the rules' own fixtures)."""
    exe = build_tool()
    return run_tool(exe, path, cflags(extra), root)

if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "build":
        print(build_tool())
    else:
        d = extract()
        print(len(d["F"]), "functions", len(d["C"]), "classes", len(d["units"]), "units")
