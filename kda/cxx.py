"""C++ front end: builds the libTooling extractor on demand, parses the requested translation
units of /repo's current working tree and merges the resolved trees into one Program."""
import hashlib, json, os, subprocess, sys, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KDA_REPO", "/repo")


class AnalysisBroken(Exception):
    pass


def _writable(d):
    try:
        os.makedirs(d, exist_ok=True)
        return os.access(d, os.W_OK)
    except OSError:
        return False


def cache_dir():
    for d in (os.path.join(VERIF, ".cache"), os.path.join(tempfile.gettempdir(), "kda-cache")):
        if _writable(d):
            return d
    raise AnalysisBroken("no writable cache directory")


def _sha(*blobs):
    h = hashlib.sha256()
    for b in blobs:
        h.update(b if isinstance(b, bytes) else b.encode())
        h.update(b"\0")
    return h.hexdigest()


def extractor():
    src = os.path.join(VERIF, "extract", "extract.cpp")
    key = _sha(open(src, "rb").read())[:16]
    out = os.path.join(cache_dir(), "extract-" + key)
    if os.path.exists(out):
        return out
    lib = sorted(glob.glob("/usr/lib/llvm-18/lib/libclang-cpp.so*"))
    if not lib:
        raise AnalysisBroken("libclang-cpp 18 is not installed")
    cfg = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True, check=True).stdout.split()
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(["clang++-18", "-O0", *cfg, "-std=c++17", "-w", src, "-o", tmp, lib[0],
                        "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("extractor does not build: " + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def _pyinc():
    import sysconfig
    cands = [sysconfig.get_path("include"), "/usr/include/python3.12"]
    for c in cands:
        if c and os.path.exists(os.path.join(c, "Python.h")):
            return c
    return "/usr/include/python3.12"


def flags():
    return ["-std=c++17", "-w", "-DEIGEN_NO_STATIC_ASSERT", '-DCFG_PATH="x"', '-DCFG_SRC_PATH="x"',
            "-I" + os.path.join(VERIF, "stubs"), "-I" + REPO + "/solver/include", "-I" + REPO + "/solver_lqr/include",
            "-I" + REPO + "/momentumopt/include", "-I/usr/include/eigen3", "-I" + _pyinc()]


SKIP_PARTS = ("/tests/", "/demos/")


def all_tus():
    r = []
    for pkg in ("solver", "solver_lqr", "momentumopt"):
        for sub in ("src", "srcpy"):
            for f in sorted(glob.glob(f"{REPO}/{pkg}/{sub}/**/*.cpp", recursive=True)):
                r.append(f)
    r.append(os.path.join(VERIF, "stubs", "tu_rt.cpp"))
    return r


def tus(*patterns):
    """TUs whose path contains one of the patterns."""
    out = [t for t in all_tus() if any(p in t for p in patterns)]
    if patterns and not out:
        raise AnalysisBroken("no translation unit matches %r" % (patterns,))
    return out


def _headers_hash():
    h = []
    for pat in ("**/*.hpp", "**/*.h"):
        for base in (REPO + "/solver", REPO + "/solver_lqr", REPO + "/momentumopt", os.path.join(VERIF, "stubs")):
            for f in sorted(glob.glob(base + "/" + pat, recursive=True)):
                h.append(f.encode())
                h.append(open(f, "rb").read())
    return _sha(*h)


def _one(args):
    tu, hh = args
    ex = extractor()
    fl = flags()
    rootd = REPO + "/"
    if tu.startswith(os.path.join(VERIF, "spec")):
        rootd = os.path.join(VERIF, "spec") + "/"
        fl = fl + ["-fno-access-control", "-include", "string", "-include", "vector", "-include", "memory", "-I" + os.path.join(VERIF, "spec")]
    key = _sha(hh, open(tu, "rb").read(), ex, " ".join(fl), tu)[:24]
    out = os.path.join(cache_dir(), "tu-" + key + ".json")
    if os.path.exists(out):
        try:
            return tu, json.load(open(out))
        except ValueError:
            pass
    r = subprocess.run([ex, rootd, tu, *fl], capture_output=True, text=True)
    if r.returncode or not r.stdout:
        if tu.startswith(os.path.join(VERIF, "spec")):
            raise SpecMismatch("the reference file %s does not fit the current declarations: %s" % (os.path.basename(tu), r.stderr[-600:]))
        raise AnalysisBroken("front end failed on %s: %s" % (tu, r.stderr[-1500:]))
    tmp = out + ".tmp%d" % os.getpid()
    open(tmp, "w").write(r.stdout)
    os.replace(tmp, out)
    return tu, json.loads(r.stdout)


def _rename(x, m):
    """give functions that are private to a file, but share their signature with one of another file, their own key"""
    if isinstance(x, str):
        return m.get(x, x)
    if isinstance(x, list):
        return [_rename(y, m) for y in x]
    if isinstance(x, dict):
        return {k: _rename(v, m) for k, v in x.items()}
    return x


class SpecMismatch(Exception):
    """the reference no longer type-checks against the code (renamed private members, ...)"""


class Program:
    def __init__(self):
        self.fns = {}      # key -> dict
        self.byqual = {}   # qualified name -> [dict]
        self.classes = {}  # qual -> dict
        self.enums = {}    # qual -> dict
        self.units = []

    def add(self, tu, j):
        self.units.append(tu)
        clash = {f["key"]: f["key"] + "@" + os.path.basename(f["file"]) + str(len(self.units))
                 for f in j["fns"] if f["key"] in self.fns and self.fns[f["key"]]["file"] != f["file"]}
        if clash:
            j = _rename(j, clash)
        for f in j["fns"]:
            if f["key"] in self.fns:
                continue
            f["lang"] = "c++"
            self.fns[f["key"]] = f
            self.byqual.setdefault(f["qual"], []).append(f)
        for c in j["classes"]:
            self.classes.setdefault(c["qual"], c)
        for e in j["enums"]:
            self.enums.setdefault(e["qual"], e)

    def get(self, qual, **kw):
        """functions with this qualified name, optionally filtered (const=bool, nparams=int)."""
        r = self.byqual.get(qual, [])
        if "const" in kw:
            r = [f for f in r if bool(f.get("const")) == kw["const"]]
        if "nparams" in kw:
            r = [f for f in r if len(f["params"]) == kw["nparams"]]
        return r

    def one(self, qual, **kw):
        r = self.get(qual, **kw)
        if len(r) != 1:
            raise AnalysisBroken("anchor %s %r: %d definitions found" % (qual, kw, len(r)))
        return r[0]

    def enum(self, qual):
        if qual not in self.enums:
            raise AnalysisBroken("anchor enum %s not found" % qual)
        return self.enums[qual]

    def cls(self, qual):
        if qual not in self.classes:
            raise AnalysisBroken("anchor class %s not found" % qual)
        return self.classes[qual]


def load(*patterns, spec=()):
    ts = tus(*patterns) + [os.path.join(VERIF, "spec", x) for x in spec]
    extractor()
    hh = _headers_hash()
    p = Program()
    with ThreadPoolExecutor(8) as ex:
        for tu, j in ex.map(_one, [(t, hh) for t in ts]):
            p.add(tu, j)
    return p


def purge_cache(keep=400):
    """bounded cache size"""
    try:
        fs = sorted(glob.glob(os.path.join(cache_dir(), "tu-*.json")), key=os.path.getmtime)
        for f in fs[:-keep]:
            os.remove(f)
    except OSError:
        pass
