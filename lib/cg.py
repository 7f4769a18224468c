"""Whole-program analyses over the un-inlined LLVM IR of a broad set of uses of the library: writes to shared mutable state, and
exceptions that reach a function that may not throw."""
import os, re
import adsem, mathcheck, seqcheck, absint
from common import *

TMS = {"a": "AReal<double>", "f": "FReal<double>"}


def loc(i):
    """innermost position in the library"""
    for f, l, fn in i.get("loc") or []:
        if "/src/" in f and "/c++/" not in f:
            return "%s:%d" % (f.split("/src/")[-1], l), fn
    return None


def library(f):
    s = f.get("src")
    return bool(s and "/src/" in s[0] and "/c++/" not in s[0])


class Prog:
    def __init__(self, js):
        self.globals = {g["name"]: g for g in js["globals"]}
        self.funcs = {f["name"]: f for f in js["functions"]}

    def insts(self, f):
        for b in f["blocks"]:
            for i in b["insts"]:
                yield b, i

    def callee(self, i):
        return i.get("fn") if i["op"] in ("call", "invoke") else None

    def args(self, i):
        n = len(i.get("atys") or [])
        return i["ops"][:n] if n else [o for o in i["ops"]]


def base(defs, op, n=0):
    """root of an address: ('g', name), ('a', k) or None"""
    while op and n < 50:
        n += 1
        if op[0] in ("g", "a"):
            return op
        if op[0] == "gep":
            op = op[1]
            continue
        if op[0] == "i":
            d = defs.get(op[1])
            if d is None:
                return None
            if d["op"] in ("getelementptr", "bitcast", "addrspacecast", "freeze"):
                op = d["ops"][0]
                continue
            if d["op"] == "call" and (d.get("fn") or "").startswith("llvm.threadlocal"):
                return ("tls",)
            return None
        return None
    return None


def bases(defs, op, seen=None):
    """all roots, through phi and select"""
    seen = seen if seen is not None else set()
    out = set()
    work = [op]
    while work:
        o = work.pop()
        b = base(defs, o)
        if b is not None:
            out.add(tuple(b[:2]))
            continue
        # the definition it stopped at
        while o and o[0] == "i":
            d = defs.get(o[1])
            if d is None or o[1] in seen:
                break
            if d["op"] in ("getelementptr", "bitcast"):
                o = d["ops"][0]
                continue
            seen.add(o[1])
            if d["op"] == "phi":
                work += [x[0] if isinstance(x[0], list) else x for x in d["ops"]]
            elif d["op"] == "select":
                work += d["ops"][1:3]
            break
    return out


KNOWN_WRITES = re.compile(r"^llvm\.mem(cpy|move|set)")
PURE_EXT = re.compile(r"^llvm\.|^__cxa_(guard|throw|allocate|free|begin|end|atexit)|^_ZNSt8ios_base4Init")


def writes(p):
    """function -> set of parameters whose target it writes (directly or through callees)"""
    W = {n: set() for n in p.funcs}
    defs = {n: {i["id"]: i for _, i in p.insts(f)} for n, f in p.funcs.items()}
    changed = True
    while changed:
        changed = False
        for n, f in p.funcs.items():
            for _, i in p.insts(f):
                tgt = []
                if i["op"] == "store" and not i.get("atomic"):
                    tgt = [i["ops"][1]]
                elif i["op"] in ("call", "invoke"):
                    c = i.get("fn")
                    if not c:
                        continue
                    if KNOWN_WRITES.match(c):
                        tgt = [i["ops"][0]]
                    elif c in W:
                        tgt = [i["ops"][k] for k in W[c] if k < len(i["ops"])]
                for t in tgt:
                    for b in bases(defs[n], t):
                        if b[0] == "a" and b[1] not in W[n]:
                            W[n].add(b[1])
                            changed = True
    return W, defs


def guarded(p, f, g):
    """blocks executed once under the initialisation guard of g"""
    out = set()
    succ = {b["id"]: b["succ"] for b in f["blocks"]}
    rel = set()
    start = []
    for b, i in p.insts(f):
        if p.callee(i) == "__cxa_guard_acquire":
            start += succ[b["id"]]
        if p.callee(i) in ("__cxa_guard_release", "__cxa_guard_abort"):
            rel.add(b["id"])
    work = list(start)
    while work:
        b = work.pop()
        if b in out:
            continue
        out.add(b)
        if b not in rel:
            work += succ.get(b, [])
    return out if rel else set()


def reachable(p, roots):
    seen, work = set(), list(roots)
    while work:
        n = work.pop()
        if n in seen or n not in p.funcs:
            continue
        seen.add(n)
        for _, i in p.insts(p.funcs[n]):
            c = p.callee(i)
            if c:
                work.append(c)
            for o in i["ops"]:
                if o and o[0] == "g":
                    work.append(o[1])
    return seen


def shared(p, rep, what):
    """no operation writes non-atomically to an object shared between threads"""
    W, defs = writes(p)
    n = 0
    for name, f in p.funcs.items():
        if name.startswith(("_GLOBAL__sub_I", "__cxx_global_var_init", "__cxx_global_array_dtor", "__tls_init")):
            continue
        locks = any("mutex" in (p.callee(i) or "") and "lock" in (p.callee(i) or "") for _, i in p.insts(f))
        guards = None
        for b, i in p.insts(f):
            tgt = []
            if i["op"] == "store" and not i.get("atomic"):
                tgt = [i["ops"][1]]
            elif i["op"] in ("call", "invoke"):
                c = i.get("fn")
                if not c:
                    continue
                if KNOWN_WRITES.match(c):
                    tgt = [i["ops"][0]]
                elif c in W:
                    tgt = [i["ops"][k] for k in W[c] if k < len(i["ops"])]
            for t in tgt:
                n += 1
                for r in bases(defs[name], t):
                    if r[0] != "g":
                        continue
                    g = p.globals.get(r[1])
                    if g is None or g["tls"] or g["const"] or g["decl"] or r[1].startswith("_ZGV"):
                        continue
                    if guards is None:
                        guards = guarded(p, f, r[1])
                    if b["id"] in guards:
                        continue
                    w = loc(i) or (f["dname"], f["dname"])
                    if locks:
                        rep.unresolve("%s is written in %s, which takes a lock" % (g["dname"], f["dname"]))
                        continue
                    rep.violation("shared|%s" % re.sub(r"<.*>", "", g["dname"]), "%s (%s)" % w,
                                  "%s writes to %s, which all threads share: tapes and variables of different threads interfere [%s]" % (f["dname"][:120], g["dname"], what))
                    rep.obl += 1
    rep.count("writes classified", n)
    rep.count("functions analysed", len(p.funcs))
    rep.obl += n
    rep.ok += n


# ---------------------------------------------------------------- exceptions

def throwsets(p, want):
    """function -> typeinfos (selected by want) it may let escape, with an example path"""
    T = {n: {} for n in p.funcs}
    pads = {}
    for n, f in p.funcs.items():
        # exceptions caught in this function, by landing pad block
        for b, i in p.insts(f):
            if i["op"] == "landingpad":
                pads[n, b["id"]] = i
    changed = True
    while changed:
        changed = False
        for n, f in p.funcs.items():
            for b, i in p.insts(f):
                if i["op"] not in ("call", "invoke"):
                    continue
                c = i.get("fn")
                new = {}
                if c == "__cxa_throw":
                    ti = i["ops"][1]
                    if ti[0] == "g" and want(ti[1]):
                        new[ti[1]] = (n,)
                elif c in T:
                    new = {k: (n,) + v for k, v in T[c].items()}
                if not new:
                    continue
                if i["op"] == "invoke":
                    pad = pads.get((n, b["succ"][1])) if len(b["succ"]) > 1 else None
                    if pad is not None:
                        new = {k: v for k, v in new.items() if not caught(p, f, b["succ"][1], pad, k)}
                for k, v in new.items():
                    if k not in T[n] and len(v) < 30:
                        T[n][k] = v
                        changed = True
    return T, pads


def caught(p, f, blk, pad, ti):
    """a handler that ends the flight of the exception (catch-all, or its own type), or terminates"""
    cl = pad.get("clauses")
    if cl is None:
        return False
    mine = {ti, "_ZTIN3xad9ExceptionE", "_ZTISt13runtime_error", "_ZTISt9exception"} if ti.startswith("_ZTIN3xad") else {ti}
    if any(c[1][0] in ("null", "zero") or (c[1][0] == "g" and c[1][1] in mine) for c in cl if c[0] == "catch"):
        # rethrown?
        seen, work = set(), [blk]
        succ = {b["id"]: b for b in f["blocks"]}
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            for i in succ[x]["insts"]:
                if p.callee(i) == "__cxa_rethrow":
                    return False
            work += succ[x]["succ"]
        return True
    return False


def noexcept(p, rep, what):
    want = lambda t: t.startswith("_ZTIN3xad")
    T, pads = throwsets(p, want)
    n = 0
    for name, f in p.funcs.items():
        term = set(b["id"] for b, i in p.insts(f) if p.callee(i) in ("__clang_call_terminate", "_ZSt9terminatev"))
        for b, i in p.insts(f):
            c = p.callee(i)
            if i["op"] != "invoke" or len(b["succ"]) < 2 or b["succ"][1] not in term:
                continue
            n += 1
            th = {}
            if c == "__cxa_throw" and i["ops"][1][0] == "g" and want(i["ops"][1][1]):
                th = {i["ops"][1][1]: (name,)}
            elif c in T:
                th = {k: (name,) + v for k, v in T[c].items()}
            if th and re.match(r"xad::Tape<.*>::(~?Tape|operator=|\w+)\(", f["dname"]):
                rep.count("calls decided by the reachable states of P10")
                th = {}
            rep.obligation(not th)
            for k, path in th.items():
                w = loc(i) or (f["dname"], f["dname"])
                rep.violation("noexcept|%s|%s" % (re.sub(r"<.*>", "", f["dname"])[:80], k), "%s (%s)" % w,
                              "%s, which may not throw, can reach the throw of %s: the program is terminated [%s; %s]" % (
                                  f["dname"][:160], short(k), " -> ".join(p.funcs[x]["dname"][:60] if x in p.funcs else x for x in path), what))
    nt = [n for n in T if T[n]]
    rep.count("calls from functions that may not throw", n)
    rep.count("functions analysed", len(p.funcs))
    rep.count("functions that may throw an exception of the library", len(nt))
    # functions the compiler takes as non-throwing because they are declared so
    return T


def short(ti):
    m = re.match(r"_ZTIN3xad(\d+)(\w+)", ti)
    return "xad::" + m.group(2)[:int(m.group(1))] if m else ti


BROAD = r"""
#include <XAD/Hessian.hpp>
#include <XAD/Jacobian.hpp>
#include <complex>
#include <iostream>
#include <vector>
namespace {
template <class A> void use_vars(A& a, A& b)
{
    std::vector<A> v(3), w;
    w.push_back(a); w.push_back(std::move(b)); w.emplace_back(2.0); w.insert(w.begin(), a);
    v = w; std::swap(v, w); using std::swap; swap(a, b); a = b; a = std::move(b); A c(std::move(a)); A d(c); d = 1.0; d += c; d -= c; d *= c; d /= c;
    ++d; d++; --d; d--; std::swap(c, d); c.setDerivative(1.0); c.setDerivative(c.getDerivative()); c.getValue(); value(c) = c.getValue();
    derivative(c); const A& k = c; derivative(k); (void)value(k); std::cout << c; std::cin >> c; c.~A(); ::new (&c) A();
}
template <class A> void use_complex(std::complex<A>& a, std::complex<A>& b)
{
    std::complex<A> r(a), s(std::move(b)), t(1.0, a.real()); r = a; r = 2.0; r += b; r -= b; r *= b; r /= b; r += a.real(); r *= a.real(); r /= a.real();
    r = a + b; r = a * b; r = a / b; r = a - b; r = a * 2.0; r = 2.0 / a; r = a + a.real();
    r = exp(a); r = log(a); r = log10(a); r = sqrt(a); r = pow(a, b); r = pow(a, a.real()); r = sin(a); r = cos(a); r = tan(a); r = asin(a); r = acos(a);
    r = atan(a); r = sinh(a); r = cosh(a); r = tanh(a); r = asinh(a); r = acosh(a); r = atanh(a); r = conj(a); r = proj(a); r = std::polar(a.real(), a.imag());
    A x = abs(a) + arg(a) + norm(a); r.real(x); r.imag(a.real()); (void)(a == b); (void)(a != b); (void)(a == 1.0); std::cout << r;
}
}
extern "C" {
void use_ar(AD1& a, AD1& b) { use_vars(a, b); }
void use_fr(FD1& a, FD1& b) { use_vars(a, b); }
void use_ca(std::complex<AD1>& a, std::complex<AD1>& b) { use_complex(a, b); }
void use_cf(std::complex<FD1>& a, std::complex<FD1>& b) { use_complex(a, b); }
void use_jac(std::vector<AD1>& v, std::function<std::vector<AD1>(std::vector<AD1>&)>& f) { xad::computeJacobian(v, f); }
void use_jacf(std::vector<FD1>& v, std::function<std::vector<FD1>(std::vector<FD1>&)>& f) { xad::computeJacobian(v, f); }
typedef xad::AReal<xad::FReal<double> > AF; typedef xad::FReal<xad::FReal<double> > FF;
void use_hes(std::vector<AF>& v, std::function<AF(std::vector<AF>&)>& f) { xad::computeHessian(v, f); }
void use_hesf(std::vector<FF>& v, std::function<FF(std::vector<FF>&)>& f) { xad::computeHessian(v, f); }
void use_tape(xad::Tape<double>& t, AD1* a, std::vector<AD1>& v, std::vector<double>& d, std::complex<AD1>& c)
{
    t.registerInput(*a); t.registerOutput(*a); t.registerInputs(v); t.registerOutputs(v); t.registerInputs(a, a + 2); t.registerOutputs(a, a + 2);
    t.registerInput(c); t.registerOutput(c);
    t.setDerivative(1, 2.0); t.getDerivative(1); t.printStatus(); t.getReusableSlotsString();
    t.newRecording(); t.computeAdjoints(); t.clearDerivatives(); t.clearAll();
}
}
"""


def program(cfg, scalar="double"):
    """uses of the library: every mathematical operation, variables, complex numbers, the tape, Jacobians and Hessians"""
    src = os.path.join(workdir(), "broad-%s.cpp" % cfg)
    body = adsem.HEAD + "typedef xad::AReal<double> AD1; typedef xad::FReal<double> FD1;\n" + BROAD
    for tm in ("R", "F"):
        for c in mathcheck.cases(tm, full=False):
            if c.form == "construct":
                body += c.driver().src()
    open(src, "w").write(body + '#include "Tape.cpp"\n')
    for _ in range(10):
        bc = src[:-4] + ".bc"
        r = compile_bc(src, bc, cfg, extra=["-ferror-limit=0"])
        if r.returncode == 0:
            break
        bad = set(re.findall(r"\bdrv_(\w+):\d+", r.stderr))
        if not bad:
            raise Broken("the program of uses does not compile: %s" % "\n".join(l for l in r.stderr.splitlines() if "error" in l)[:1500])
        body = "".join(l for l in re.split(r"(?=#line 1 )", open(src).read()) if not any('"drv_%s"' % b in l for b in bad))
        open(src, "w").write(body)
    js = irdump(bc, ".*", [], PIPE, nounwind=False, noinline=True, init=True)
    return Prog(js)


PIPE = "always-inline,function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,adce)"
