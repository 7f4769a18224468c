"""Drivers over the public AD types, their normalised IR, and the meaning of the
tape events that remain in it."""
import os, re, random
import mpmath as mp
import sympy as sp
from common import *
from irterm import *
from termeval import *

# tape primitives that stay opaque: they are the recording interface, their own
# bodies are judged by the tape checks
OPAQUE = [r"^xad::Tape<.*>::(pushRhs|pushLhs|pushAll|registerVariable|unregisterVariable|getActive|isActive|setActive|activate|deactivate|deactivateAll|derivative|getDerivative|setDerivative|computeAdjoints|newRecording)\(",
          r"^std::ostream", r"^std::__ostream_insert", r"^std::basic_ostream"]

TYPES = {
    "R": "xad::AReal<double>", "F": "xad::FReal<double>",
    "Rf": "xad::AReal<float>", "Ff": "xad::FReal<float>",
    "FF": "xad::FReal<xad::FReal<double> >", "RF": "xad::AReal<xad::FReal<double> >",
    "FR": "xad::FReal<xad::AReal<double> >", "RR": "xad::AReal<xad::AReal<double> >",
}
NEST = {k: ("float" if k.endswith("f") else "double") for k in TYPES}

PROBES = {
    "R": {"v": "xad::value(x)", "slot": "x.getSlot()"},
    "F": {"v": "xad::value(x)", "d": "xad::derivative(x)"},
    "FF": {"v": "xad::value(xad::value(x))", "vd": "xad::derivative(xad::value(x))",
           "dv": "xad::value(xad::derivative(x))", "dd": "xad::derivative(xad::derivative(x))"},
    "RF": {"v": "xad::value(xad::value(x))", "vd": "xad::derivative(xad::value(x))", "slot": "x.getSlot()"},
    "FR": {"v": "xad::value(xad::value(x))", "vslot": "xad::value(x).getSlot()",
           "dv": "xad::value(xad::derivative(x))", "dslot": "xad::derivative(x).getSlot()"},
    "RR": {"v": "xad::value(xad::value(x))", "vslot": "xad::value(x).getSlot()", "slot": "x.getSlot()"},
}
PROBES["Rf"], PROBES["Ff"] = PROBES["R"], PROBES["F"]

HEAD = """#include <XAD/XAD.hpp>
#include <XAD/StdCompatibility.hpp>
#include <XAD/Complex.hpp>
#include <new>
"""


def probe_src(tm):
    out = []
    for nm, e in PROBES[tm].items():
        out.append('extern "C" auto probe_%s(const %s& x) { return %s; }' % (nm, TYPES[tm], e))
    return "\n".join(out) + "\n"


def probe_src_lenient(tm):
    return probe_src(tm)


def layout_from(js):
    """field name -> byte offset, read off the loads of the probe functions"""
    lay = {}
    for f in js["functions"]:
        m = re.match(r"probe_(\w+)$", f["name"])
        if not m:
            continue
        fn = Fn(f).run()
        r = fn.exits[0][2]
        while r is not None and r.op in ("fpext",):
            r = r.a[0]
        if r is None or r.op != "mem":
            continue
        p = r.a[0]
        if p.op == "ptr" and p.a[0].op == "arg":
            lay[m.group(1)] = p.k
        elif p.op == "arg":
            lay[m.group(1)] = 0
    return lay


class Driver:
    """one driver function: parameters, C++ body, and what it stands for"""

    def __init__(self, name, params, body, ret="void", meta=None):
        self.name, self.params, self.body, self.ret, self.meta = name, params, body, ret, meta or {}

    def src(self):
        ps = ", ".join("%s %s" % (t, n) for t, n in self.params)
        return '#line 1 "drv_%s"\nextern "C" %s drv_%s(%s) { %s }\n' % (self.name, self.ret, self.name, ps, self.body)


def build(tag, drivers, cfg="default", head=HEAD, std="c++17", extra=(), opaque=OPAQUE, probes=None, root=r"^(drv|probe)_"):
    """compile the drivers against /repo, normalise; returns ({name: function json}, layout, [drivers that do not compile])"""
    wd = workdir()
    failed = []
    drivers = list(drivers)
    for attempt in range(12):
        src = os.path.join(wd, "%s-%s.cpp" % (tag, cfg))
        with open(src, "w") as f:
            f.write(head)
            if probes:
                f.write('#line 1 "probes"\n' + probe_src(probes))
            for d in drivers:
                f.write(d.src())
        bc = src[:-4] + ".bc"
        r = compile_bc(src, bc, cfg=cfg, std=std, extra=list(extra) + ["-ferror-limit=0"])
        if r.returncode == 0:
            break
        bad = set(re.findall(r"\bdrv_(\w+):\d+", r.stderr))
        bad = [d for d in drivers if d.name in bad]
        if not bad:
            raise Broken("driver %s does not compile: %s" % (tag, r.stderr[:3000]))
        for d in bad:
            ms = [l for l in r.stderr.splitlines() if "drv_%s:" % d.name in l and "error" in l]
            failed.append((d, ms[0] if ms else "does not compile"))
        badset = set(d.name for d in bad)
        drivers = [d for d in drivers if d.name not in badset]
    else:
        raise Broken("driver %s does not compile" % tag)
    js = irdump(bc, root, opaque)
    fns = {f["name"]: f for f in js["functions"]}
    lay = layout_from(js) if probes else None
    return fns, lay, failed, js


# ------------------------------------------------------------------ libm with results through pointers
OUTFN = {"frexp": "frexp_e", "remquo": "remquo_q", "modf": "modf_i"}
MATHFN = set(NUM) | {f + s for f in ("ilogb", "lround", "llround", "lrint", "llrint") for s in ("", "f")}


def pure(fn, i, name, args, mem):
    n = canon_fn(name)
    if n in OUTFN:
        *xs, p = args
        size = 4 if n in ("frexp", "remquo") else (4 if name.endswith("f") and name != n else 8)
        fn.store(mem, p, mk("call", tuple(xs), OUTFN[n]), size)
        return mk("call", tuple(xs), n)
    if n in MATHFN and not name.startswith("_Z"):
        return mk("call", tuple(args), n)
    dfn = i.get("dfn", name)
    if dfn.startswith("std::_Hash_bytes("):
        return mk("call", (fn.load(mem, args[0], None, args[1].k if args[1].op == "ci" else 8),) + tuple(args[1:]), "hash_bytes")
    if re.match(r"^xad::Tape<.*>::getActive\(", dfn):
        return mk("tape", (), re.match(r"^xad::Tape<(.*)>::getActive\(", dfn).group(1))
    return None


EVRE = re.compile(r"^xad::Tape<(.*)>::(\w+)\(")


def evkind(e):
    m = EVRE.match(e.name)
    return (m.group(2), m.group(1)) if m else (None, None)


def analyse(js):
    return Fn(js, pure=pure).run()
