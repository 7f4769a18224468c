"""Shared plumbing: build directories, configuration headers, compilation of
drivers against /repo's current tree, IR normalisation, evidence, verdicts."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XAD_REPO", "/repo")
CXX = "/usr/bin/clang++-18"
LLVM_INC = "/usr/lib/llvm-18/include"
LLVM_LIB = "/usr/lib/llvm-18/lib"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

_t0 = time.time()
_work = None


class Broken(Exception):
    """the check itself cannot give an answer"""


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="xadverif.")
        if not os.environ.get("XAD_KEEP"):
            atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
        else:
            print("workdir", _work, file=sys.stderr)
    return _work


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r


_tool_cache = {}
_tool_lock = threading.Lock()


def tool(name):
    with _tool_lock:
        return _tool(name)


def _tool(name):
    """build tools/<name>.cpp (cached by content, outside git)"""
    if name in _tool_cache:
        return _tool_cache[name]
    src = os.path.join(VERIF, "tools", name + ".cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = None
    for d in (os.path.join(VERIF, ".build"), "/tmp/xadverif-tools-%d" % os.getuid()):
        try:
            os.makedirs(d, exist_ok=True)
        except OSError:
            continue
        exe = os.path.join(d, "%s-%s" % (name, h))
        if os.path.exists(exe):
            break
        tmp = exe + ".%d.tmp" % os.getpid()
        libs = ["-lLLVM-18"]
        extra = []
        if name.startswith("ast"):
            libs = ["-lclang-cpp", "-lLLVM-18"]
        r = run([CXX, "-O1", "-std=c++17", "-fno-rtti", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
                 "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-I" + LLVM_INC, src, "-o", tmp,
                 "-L" + LLVM_LIB, "-Wl,-rpath," + LLVM_LIB] + extra + libs)
        if r.returncode != 0:
            raise Broken("cannot build tool %s: %s" % (name, r.stderr[-2000:]))
        os.replace(tmp, exe)
        break
    _tool_cache[name] = exe
    return exe


CONFIGS = {
    # name: (cmakedefine options on, extra flags)
    "default": (["XAD_USE_STRONG_INLINE", "XAD_ALLOW_INT_CONVERSION"], []),
    "reuse": (["XAD_USE_STRONG_INLINE", "XAD_ALLOW_INT_CONVERSION", "XAD_TAPE_REUSE_SLOTS"], ["-DNDEBUG"]),
    "ndebug": (["XAD_USE_STRONG_INLINE", "XAD_ALLOW_INT_CONVERSION"], ["-DNDEBUG"]),
    "reusedbg": (["XAD_USE_STRONG_INLINE", "XAD_ALLOW_INT_CONVERSION", "XAD_TAPE_REUSE_SLOTS"], []),
    "weakinline": (["XAD_ALLOW_INT_CONVERSION"], ["-DNDEBUG"]),
    "noint": (["XAD_USE_STRONG_INLINE"], []),
}

_cfg_dirs = {}


def config_dir(cfg):
    """generate Config.hpp/Version.hpp for a configuration from the .in files of the current tree"""
    if cfg in _cfg_dirs:
        return _cfg_dirs[cfg]
    on = CONFIGS[cfg][0]
    d = os.path.join(workdir(), "cfg-" + cfg)
    os.makedirs(os.path.join(d, "XAD"), exist_ok=True)
    for f in ("Config.hpp", "Version.hpp"):
        src = os.path.join(REPO, "src/XAD", f + ".in")
        if not os.path.exists(src):
            raise Broken("missing " + src)
        out = []
        for l in open(src):
            m = re.match(r"\s*#\s*cmakedefine\s+(\w+)", l)
            if m:
                l = ("#define %s\n" % m.group(1)) if m.group(1) in on else "\n"
            l = re.sub(r"@VERSION_NUMERIC@|@XAD_VERSION_NUMERIC@", "10000", l)
            l = re.sub(r"@\w+@", "0", l)
            out.append(l)
        open(os.path.join(d, "XAD", f), "w").write("".join(out))
    _cfg_dirs[cfg] = d
    return d


def include_flags(cfg):
    return ["-I" + config_dir(cfg), "-I" + os.path.join(REPO, "src")]


def compile_bc(src, out, cfg="default", std="c++17", extra=(), opt="-O1"):
    cmd = [CXX, "-std=" + std, opt, "-Xclang", "-disable-llvm-passes", "-gline-tables-only",
           "-fno-builtin", "-ffp-contract=off", "-w", "-c", "-emit-llvm"] + include_flags(cfg) + \
        CONFIGS[cfg][1] + list(extra) + [src, "-o", out]
    r = run(cmd)
    return r


PIPE_ACYCLIC = ("always-inline,globalopt,function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,"
                "simplifycfg,gvn,simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),sroa,"
                "early-cse<memssa>,instcombine<no-verify-fixpoint>,gvn,dse,adce,simplifycfg)")


def irdump(bc, root, opaque, passes=PIPE_ACYCLIC, nounwind=True, noinline=False, init=False, reach=None):
    out = bc + ".json"
    opf = bc + ".opaque"
    open(opf, "w").write("\n".join(opaque) + "\n")
    cmd = [tool("irdump"), bc, out, "--root", root, "--opaque", opf, "--passes", passes]
    if nounwind:
        cmd.append("--nounwind")
    if noinline:
        cmd.append("--noinline")
    if init:
        cmd.append("--init")
    if reach:
        cmd += ["--reach", reach]
    r = run(cmd)
    if r.returncode != 0:
        raise Broken("irdump failed: " + r.stderr[-2000:])
    return json.load(open(out))


def pmap(fn, items, n=8):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


# --------------------------------------------------------------------------- verdicts

def load_known():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


class Report:
    """collects obligations and violations of one property"""

    def __init__(self, prop, tier, level="other"):
        self.prop, self.tier, self.level = prop, tier, level
        self.viol = []          # dicts: key, where, what
        self.obl = 0            # obligations examined
        self.ok = 0
        self.unresolved = []
        self.analysed = {}
        self.rules = []
        self.notes = []
        self.samples = []
        self.t0 = time.time()

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def obligation(self, good=True):
        self.obl += 1
        if good:
            self.ok += 1

    def sample(self, s):
        """keep a few spread-out instances for the evidence"""
        self._n = getattr(self, "_n", 0) + 1
        if len(self.samples) < 12 or self._n % 211 == 0:
            self.samples.append(s)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def violation(self, key, where, what, detail=None):
        for v in self.viol:
            if v["key"] == key:
                v["count"] = v.get("count", 1) + 1
                return
        self.viol.append({"key": key, "where": where, "what": what, "detail": detail or ""})

    def unresolve(self, what):
        self.unresolved.append(what)

    def need(self, n, what):
        """the analysis has to have found at least n instances, or it is not looking at anything"""
        if not self.viol and self.analysed.get(what, 0) < n:
            raise Broken("%s: only %d %s found, expected at least %d - the analysis lost its anchor"
                         % (self.prop, self.analysed.get(what, 0), what, n))

    def finish(self):
        known = [k for k in load_known() if k["property"] == self.prop and k.get("status") == "known"]
        new, old = [], []
        for v in self.viol:
            m = [k for k in known if k["key"] == v["key"]]
            (old if m else new).append((v, m[0] if m else None))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level,
            "coverage": {
                "explanation": "Static analysis of /repo's current source. " + " ".join(self.rules),
                "obligations": self.obl, "discharged": self.ok,
                "unresolved": len(self.unresolved),
                "unresolved_items": self.unresolved[:40],
                "analysed": self.analysed,
                "rules": self.rules,
                "notes": self.notes,
                "violations": [v for v in self.viol],
                "samples": self.samples[:40],
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.viol),
            "assumptions": TRUSTED,
        }
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        tmp = p + ".tmp%d" % os.getpid()
        json.dump(ev, open(tmp, "w"), indent=1, default=str)
        os.replace(tmp, p)
        for v, k in old:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for v, _ in new:
            print("%s: %s: %s" % (self.prop, v["where"], v["what"]))
            if v["detail"]:
                print("    " + str(v["detail"]).replace("\n", "\n    "))
        if new:
            rp = os.path.join(VERIF, "evidence", self.prop + ".violations.json")
            json.dump([v for v, _ in new], open(rp, "w"), indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("%s: held on everything analysed: %d obligations, %d discharged, %d unresolved (%.1fs)"
              % (self.prop, self.obl, self.ok, len(self.unresolved), time.time() - self.t0))
        return 0


TRUSTED = ["clang 18 front end (source to LLVM IR)", "LLVM 18 normalisation passes",
           "tools/irdump.cpp", "lib/*.py", "sympy (term normal forms)"]
