"""Operations whose result is not an AD number, or whose value must equal the plain-number result bit for bit:
the normalised term of the AD version against the normalised term of the very same expression on plain numbers."""
import itertools, math, multiprocessing, os, re
from adsem import *
import par
from ieee import IEEE, same, rename

SPECIAL = [math.nan, math.inf, -math.inf, 0.0, -0.0, 1.5, -1.5, 3.0, 2.0, 2.5, -2.5, 0.49999999999999994, 1e300, -7.0, 5e-324, 1e-200, -1e160, 4503599627370497.5]
MILD = [1.5, -1.5, 3.0, 2.0, 2.5, -2.5, -7.0, 0.0, -0.0, 120.7, 65.0]
INTS = [0, 1, 2, -3, 7]
EXPONENTS = [0, 1, -3, 1023, 1024, 1100, 2000, -1022, -1075, -1100, -2000]


class RefCase:
    """expr over p0, p1, ... ; kinds as in mathcheck (L, E, S, I, f); ret: return type"""

    def __init__(self, tm, op, kinds, expr, ret, pts=None, scalar_only=None):
        self.tm, self.op, self.kinds, self.ret, self.pts = tm, op, kinds, ret, pts or SPECIAL
        self.name = "%s_%s_%s" % (tm, re.sub(r"\W", "_", op), "".join(kinds))
        ops, self.leaves, self.params = [], [], []
        for kd in kinds:
            def leaf(k):
                n = "p%d" % len(self.params)
                self.params.append((n, k))
                return n
            if kd == "L":
                ops.append(leaf("A"))
            elif kd == "E":
                a, b = leaf("A"), leaf("A")
                ops.append("(%s * %s)" % (a, b))
            elif kd == "U":
                ops.append("(-%s)" % leaf("A"))
            else:
                ops.append(leaf(kd))
        self.expr = expr.format(*ops, T="@T@")
        self.text = "%s on %s" % (self.expr, tm)

    def drivers(self):
        ty = lambda k, A: {"A": A, "S": NEST[self.tm], "I": "int", "f": "float"}[k]
        A = "const %s&" % TYPES[self.tm]
        ad = Driver(self.name, [(ty(k, A), n) for n, k in self.params], "return %s;" % self.expr.replace("@T@", TYPES[self.tm]), ret=self.ret, meta={"case": self})
        rf = Driver(self.name + "_ref", [(ty(k, NEST[self.tm]), n) for n, k in self.params],
                    "return %s;" % re.sub(r"xad::(copysign|scalbn|degrees|radians)\(", r"ref_\1(", re.sub(r"xad::value\(", "(", self.expr.replace("@T@", NEST[self.tm]))), ret=self.ret, meta={"case": self})
        return ad, rf


def compare_cases(tm):
    out = []
    r = lambda *a, **k: out.append(RefCase(tm, *a, **k))
    nested = tm in ("RF", "FF", "FR", "RR")
    for nm, o in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
        for a, b in itertools.product("LEUSI", repeat=2):
            if a in "SI" and b in "SI":
                continue
            if nested and "I" in (a, b):
                continue
            r(nm, [a, b], "({0} %s {1})" % o, "bool", pts=SPECIAL if "E" not in (a, b) else SPECIAL[:9])
    for f in ("isnan", "isinf", "isfinite", "isnormal", "signbit"):
        for a in "LE":
            r("std_" + f, [a], "std::%s({0})" % f, "bool")
            r("xad_" + f, [a], "xad::%s({0})" % f, "bool")
    for a in "LE":
        r("fpclassify", [a], "std::fpclassify({0})", "int")
        r("ilogb", [a], "std::ilogb({0})", "int")
        r("lround", [a], "std::lround({0})", "long", pts=MILD)
        r("llround", [a], "std::llround({0})", "long long", pts=MILD)
        r("bool", [a], "static_cast<bool>({0})", "bool")
        r("not", [a], "!({0})", "bool")
        r("and_", [a, "L"], "(({0} < 2.0) && ({1} < 2.0))", "bool")
    for t in ("char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long"):
        for a in "LE":
            neg = "unsigned" in t or t == "char"
            r("to_" + t, [a], "static_cast<%s>({0})" % t, t, pts=[x for x in MILD if not (neg and x < 0) and not ("char" in t and abs(x) > 100)])
    for a in "LE":
        r("value", [a], "xad::value({0})", NEST[tm], pts=SPECIAL) if not nested else None
    if not nested:
        r("hash", ["L"], "std::hash<{T}>{{}}({0})", "std::size_t")
    return out


def value_cases(tm):
    """the value of every operation against the operation on plain numbers, including NaN, infinities and signed zeros"""
    import mathcheck
    out, seen = [], set()
    for c in mathcheck.cases(tm, full=True):
        if c.qual == "std::" or c.form != "construct" or any(k in "PMf" for k in c.kinds) or c.op.startswith("smooth_m"):
            continue
        if c.op.startswith("c_") and NEST[tm] == "float":
            continue
        if c.spec != c.op and not c.op.startswith("smooth"):
            continue
        if c.op in ("max", "min") and c.kinds == ["E", "E"]:
            continue
        i = [0]
        e = c.expr
        if e is None:
            slots = ["{%d}" % j for j in range(len(c.kinds))]
            if c.op in mathcheck.INFIX:
                e = "%s %s %s" % (slots[0], mathcheck.INFIX[c.op], slots[1])
            elif c.op in ("neg", "pos"):
                e = {"neg": "-", "pos": "+"}[c.op] + slots[0]
            else:
                e = "xad::%s(%s)" % (c.op, ", ".join(slots))
        k = ["I" if x == "I" else x for x in c.kinds]
        if (c.op, tuple(k)) in seen:
            continue
        seen.add((c.op, tuple(k)))
        nested = tm in ("RF", "FF", "FR", "RR")
        if nested and ("I" in k and c.op not in ("ldexp", "scalbn") or c.op.startswith("c_")):
            continue
        rc = RefCase(tm, "val_" + c.op, k, ("xad::value(xad::value(%s))" if nested else "xad::value(%s)") % e, NEST[tm], pts=MILD + [math.nan, math.inf, -math.inf] if NEST[tm] == "float" else SPECIAL)
        out.append(rc)
    return out


REFHEAD = """
template <class T> inline T ref_degrees(T x) { return x * T(57.295779513082320876798154814105); }
template <class T> inline T ref_radians(T x) { return x * T(0.01745329251994329576923690768489); }
using std::copysign; using std::scalbn;
template <class A, class B> inline auto ref_copysign(A x, B y) { return std::copysign(x, y); }
template <class A> inline A ref_scalbn(A x, int e) { return std::scalbn(x, e); }
"""


def close(a, b, tol):
    """NaN, infinities and signed zeros exactly, other values up to rounding"""
    if same(a, b) or not (isinstance(a, float) and isinstance(b, float)):
        return same(a, b)
    if a != a or b != b or math.isinf(a) or math.isinf(b) or a == 0 or b == 0:
        return False
    return abs(a - b) <= tol * max(abs(a), abs(b))


class RefCheck:
    def __init__(self, case, ad, rf, lay):
        self.case = case
        self.ad, self.rf = analyse(ad), analyse(rf)
        self.voff = lay["v"]
        self.exact = case.op.startswith("val_") is False
        self.viol, self.stats = [], {"points": 0, "identical": 0, "tested": 0}

    def leaf(self, t):
        if t.op == "mem":
            p = t.a[0]
            b, off = (p.a[0], p.k) if p.op == "ptr" else (p, 0)
            if b.op == "arg" and off == self.voff and (p.op != "ptr" or len(p.a) == 1) and self.case.params[b.k][1] == "A":
                return mk("arg", (), b.k)
        return None

    def ret(self, fn):
        ex = [e for e in fn.exits if e[1] == "ret"]
        if len(ex) != 1:
            raise NoEval("exits")
        return ex[0][2]

    def check(self):
        c = self.case
        if self.ad.events and not c.op.startswith("val_"):
            e = self.ad.events[0]
            if evkind(e)[0]:
                self.viol.append((locstr(e.loc), "%s writes to the tape (%s)" % (c.text, evkind(e)[0])))
                return self
        a = rename(self.ret(self.ad), self.leaf)
        b = self.ret(self.rf)
        if a is b:
            self.stats["identical"] += 1
            return self
        if any(not evkind(e)[0] for e in self.ad.events + self.rf.events):
            raise NoEval("opaque call " + (self.ad.events + self.rf.events)[0].name)
        dom = []
        for n, k in c.params:
            dom.append((EXPONENTS if c.op in ("val_ldexp", "val_scalbn") else INTS) if k == "I" else c.pts)
        pts = itertools.product(*dom)
        if len(c.params) > 2:
            pts = [p for i, p in enumerate(pts) if i % (7 if len(c.params) == 3 else 61) == 0]
        for row in pts:
            # the order of equal or unordered operands of max and min is not part of the contract
            if c.op.startswith(("val_max", "val_min", "val_fm")) and c.op != "val_fmod" and (any(not math.isfinite(x) for x in row) or len(set(row)) < len(row)):
                continue
            if NEST[c.tm] == "float":
                import struct
                try:
                    row = [x if isinstance(x, int) else struct.unpack("f", struct.pack("f", x))[0] for x in row]
                except OverflowError:
                    continue
            env = lambda t: row[t.k] if t.op == "arg" else {"mem": 3, "fresh": 100, "tape": 1}.get(t.op)
            ea = IEEE(env)
            try:
                vb = ea.num(b)
            except NoEval:
                if ea.resolve(a) is ea.resolve(b):
                    self.stats["points"] += 1
                    continue
                raise
            va = ea.num(a)
            self.stats["points"] += 1
            if not (same(va, vb) if self.exact else close(va, vb, 1e-6 if NEST[c.tm] == 'float' else 1e-12)):
                w = "driver of " + c.text
                if a.loc:
                    w = locstr(a.loc)
                if c.op.startswith(("val_max", "val_min", "val_fm")) and (va != va or vb != vb or va == vb):
                    continue
                self.viol.append((w, "%s gives %s where the same expression on plain numbers gives %s, for operands %s"
                                  % (c.text, va, vb, ", ".join(map(str, row)))))
                return self
        self.stats["tested"] += 1
        return self


def _work(a):
    case, ad, rf, lay = a
    try:
        ck = None
        try:
            ck = par.guarded(lambda: RefCheck(case, ad, rf, lay))
            par.guarded(ck.check)
        except par.Timeout:
            if ck is None:
                return [], {"cut": 1}, "out of time"
            ck.stats["cut"] = 1
        return ck.viol, ck.stats, None
    except (NoEval, Unknown) as e:
        return [], {}, "%s: %s" % (type(e).__name__, e)


def run_ref(tms, gen=compare_cases, cfg="default"):
    groups = [(tm, gen(tm)) for tm in tms]

    def b(g):
        ds = []
        for c in g[1]:
            ds += c.drivers()
        return build("ref_%s" % g[0], ds, cfg=cfg, probes=g[0], head=HEAD + REFHEAD)
    built = pmap(b, groups)
    jobs, bad = [], []
    for (tm, cs), (fns, lay, failed, js) in zip(groups, built):
        fl = {d.name: m for d, m in failed}
        for c in cs:
            if c.name + "_ref" in fl:
                raise Broken("reference driver %s: %s" % (c.name, fl[c.name + "_ref"]))
            if c.name in fl:
                bad.append((c, fl[c.name]))
                continue
            jobs.append((c, fns["drv_" + c.name], fns["drv_" + c.name + "_ref"], lay))
    with multiprocessing.Pool(min(8, os.cpu_count() or 8)) as pool:
        res = pool.map(_work, jobs, chunksize=4)
    return [(j[0],) + r for j, r in zip(jobs, res)], bad
