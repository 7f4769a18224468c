"""Statement sequences over std::complex of AD types, with the real and imaginary part of every result as real formulas."""
import re
import sympy as sp
from seqcheck import Seq
from adsem import TYPES, NEST

x, y, z, w = sp.symbols("x y z w")
i = sp.Symbol("i")


class C:
    """a complex number as a pair of real formulas"""

    def __init__(self, re, im=0):
        self.re, self.im = sp.sympify(re), sp.sympify(im)

    def __add__(a, b):
        return C(a.re + b.re, a.im + b.im)

    def __sub__(a, b):
        return C(a.re - b.re, a.im - b.im)

    def __mul__(a, b):
        return C(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)

    def __truediv__(a, b):
        d = b.re ** 2 + b.im ** 2
        return C((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d)

    def __neg__(a):
        return C(-a.re, -a.im)

    def muli(a):
        return C(-a.im, a.re)

    def divi(a):
        return C(a.im, -a.re)


def norm(a):
    return a.re ** 2 + a.im ** 2


def abs_(a):
    return sp.sqrt(norm(a))


def arg(a):
    return sp.atan2(a.im, a.re)


def log(a):
    return C(sp.log(norm(a)) / 2, arg(a))


def log10(a):
    l = log(a)
    return C(l.re / sp.log(10), l.im / sp.log(10))


def polar(r, t):
    return C(r * sp.cos(t), r * sp.sin(t))


def sqrt(a):
    return polar(sp.sqrt(abs_(a)), arg(a) / 2)


def exp(a):
    return polar(sp.exp(a.re), a.im)


def sinh(a):
    return C(sp.sinh(a.re) * sp.cos(a.im), sp.cosh(a.re) * sp.sin(a.im))


def cosh(a):
    return C(sp.cosh(a.re) * sp.cos(a.im), sp.sinh(a.re) * sp.sin(a.im))


def tanh(a):
    d = sp.cosh(2 * a.re) + sp.cos(2 * a.im)
    return C(sp.sinh(2 * a.re) / d, sp.sin(2 * a.im) / d)


def sin(a):
    return C(sp.sin(a.re) * sp.cosh(a.im), sp.cos(a.re) * sp.sinh(a.im))


def cos(a):
    return C(sp.cos(a.re) * sp.cosh(a.im), -sp.sin(a.re) * sp.sinh(a.im))


def tan(a):
    d = sp.cos(2 * a.re) + sp.cosh(2 * a.im)
    return C(sp.sin(2 * a.re) / d, sp.sinh(2 * a.im) / d)


def atanh(a):
    return C(sp.log(((1 + a.re) ** 2 + a.im ** 2) / ((1 - a.re) ** 2 + a.im ** 2)) / 4, (sp.atan2(a.im, 1 + a.re) - sp.atan2(-a.im, 1 - a.re)) / 2)


def atan(a):
    return atanh(a.muli()).divi()


ONE = C(1)


def asinh(a):
    return log(a + sqrt(ONE + a * a))


def acosh(a):
    return log(a + sqrt(a + ONE) * sqrt(a - ONE))


def asin(a):
    return log(a.muli() + sqrt(ONE - a * a)).divi()


def acos(a):
    s = asin(a)
    return C(sp.pi / 2 - s.re, -s.im)


def pow_(a, b):
    return exp(log(a) * b)


FNS = {"exp": exp, "log": log, "log10": log10, "sqrt": sqrt, "sinh": sinh, "cosh": cosh, "tanh": tanh, "sin": sin, "cos": cos, "tan": tan,
       "asinh": asinh, "acosh": acosh, "atanh": atanh, "asin": asin, "acos": acos, "atan": atan}

def V(n):
    """the value of an operand without its derivative"""
    return sp.Symbol(n + "_v")


QUAD = [(1.3, 0.7, 2.2, 0.4), (-2.6, 1.9, 0.5, -3.1), (-0.9, -0.8, -1.7, 2.4), (0.6, -1.5, -0.25, -1.5), (0.3, 0.2, 0.75, 0.5)]
AXES = {  # points on the axes away from branch cuts and points, where both parts are analytic
    "exp": [(0., 0.), (1., 0.), (0., 2.), (-1.5, 0.)], "log": [(1., 0.), (2., 0.), (0., 1.), (0., -3.)], "sqrt": [(1., 0.), (4., 0.), (0., 1.), (0., -2.)],
    "sinh": [(0., 0.), (1., 0.), (0., 2.)], "tanh": [(0., 0.), (1., 0.), (0., 1.)], "asinh": [(0., 0.), (1., 0.), (-1.5, 0.), (0., .5)],
    "acosh": [(2., 0.), (0., 1.), (0., -1.5)], "atanh": [(0., 0.), (.5, 0.), (0., 2.), (-.25, 0.), (0., -1.)], "acos": [(0., 0.), (.5, 0.), (0., 1.), (0., -2.)],
    "atan": [(0., 0.), (0., .5), (2., 0.), (-1., 0.), (1., 0.)]}
for a, b in (("log10", "log"), ("cosh", "sinh"), ("sin", "exp"), ("cos", "exp"), ("tan", "tanh"), ("asin", "acos")):
    AXES[a] = AXES[b]


def cxseqs(tm):
    out = []
    T = TYPES[tm]
    double = NEST[tm] == "double"
    first = tm in ("R", "F", "Rf", "Ff")

    def s(name, params, body, post, rows=None, moved=()):
        q = Seq(tm, "cx " + name, params, "typedef std::complex<T> Z; typedef std::complex<%s> D; (void)sizeof(Z); (void)sizeof(D); " % ("double" if double else "float") + body, post, moved=moved)
        q.text = "{ %s }" % body
        q.rows = rows or QUAD
        q.boundaries = re.search(r"^arg of|^pow [A-Y]", name) is None
        q.abstol = 1e-14    # the code's constants (pi) are rounded to double
        q.witness_only = re.search(r"composed|a(sin|cos|tan)h?$|pow|sqrt|tan", name) is not None or not first and re.search("fn ", name) is not None
        out.append(q)
    AB = [("x", "C"), ("y", "C"), ("z", "C"), ("w", "C")]
    RI = [("o", "N"), ("p", "N")]
    put = "::new ((void*)o) T(r.real()); ::new ((void*)p) T(r.imag());"
    res = lambda c: {"o": c.re, "p": c.im}
    a, b = C(x, y), C(z, w)
    OPS = {"+": ("add", C.__add__), "-": ("sub", C.__sub__), "*": ("mul", C.__mul__), "/": ("div", C.__truediv__)}
    S = [("w", "S")]
    # operand kinds: text, parameters, value
    Zk = lambda n, u, v: ("Z(%s, %s)" % (u, v), C(sp.Symbol(u), sp.Symbol(v)))
    kinds = {
        "Z": ("Z({0}, {1})", lambda u, v: C(u, v), "CC"),
        "D": ("D({0}, {1})", lambda u, v: C(u, v), "SS"),
        "A": ("{0}", lambda u, v: C(u), "C-"),
        "E": ("({0} * {1})", lambda u, v: C(u * v), "CC"),
        "U": ("(-{0})", lambda u, v: C(-u), "C-"),
        "S": ("{0}", lambda u, v: C(u), "S-"),
    }

    def pair(k1, k2):
        t1, f1, p1 = kinds[k1]
        t2, f2, p2 = kinds[k2]
        ps = [(n, k) for n, k in zip("xyzw", p1 + p2) if k != "-"]
        return t1.format("x", "y"), t2.format("z", "w"), f1(x, y), f2(z, w), ps

    combos = [("Z", k) for k in "ZDAEUS"] + [(k, "Z") for k in "DAEUS"] + [("D", k) for k in "AEU"] + [(k, "D") for k in "AEU"]
    for o, (nm, f) in OPS.items():
        for k1, k2 in combos:
            if not first and (k1 in "DS" or k2 in "DS"):
                continue
            t1, t2, v1, v2, ps = pair(k1, k2)
            s("%s %s%s" % (nm, k1, k2), ps + RI, "Z r = %s %s %s; %s" % (t1, o, t2, put), res(f(v1, v2)))
        for k2 in "ZDAEUS":
            if not first and k2 in "DS":
                continue
            t1, t2, v1, v2, ps = pair("Z", k2)
            s("%s assign %s" % (nm, k2), ps + RI, "Z r(x, y); r %s= %s; %s" % (o, t2, put), res(f(v1, v2)))
            s("%s assign chain %s" % (nm, k2), ps + RI, "Z r(x, y); Z& q = (r %s= %s); q *= Z(y, x); %s" % (o, t2, put), res(f(v1, v2) * C(y, x)))
        s(nm + " assign self", AB[:2] + RI, "Z r(x, y); r %s= r; %s" % (o, put), res(f(a, a)), rows=QUAD)
        s(nm + " assign own real", AB[:2] + RI, "Z r(x, y); r %s= r.real(); %s" % (o, put), res(f(a, C(x))))
        s(nm + " assign own imag", AB[:2] + RI, "Z r(x, y); r %s= r.imag(); %s" % (o, put), res(f(a, C(y))))
        s(nm + " reassign", AB + RI, "Z q(x, y), r(z, w); r = q %s r; %s" % (o, put), res(f(a, b)))
    EQ = [(1.5, 0.5, 1.5, 0.5), (1.5, 0.5, 1.5, -0.5), (1.5, 0., -1.5, 0.), (-2., 0., -2., 0.), (2., 0., -2., -1.), (0., 0., 0., 0.), (-1., 0.25, -1., 0.25), (3., 0.5, 3., 1.)]
    for k1, k2 in [("Z", k) for k in "ZAEUS"] + [(k, "Z") for k in "AEUS"]:
        if not first and (k1 in "SEU" or k2 in "SEU"):
            continue
        t1, t2, v1, v2, ps = pair(k1, k2)
        eq = sp.And(sp.Eq(v1.re, v2.re), sp.Eq(v1.im, v2.im))
        s("equal %s%s" % (k1, k2), ps + [("o", "N")], "::new ((void*)o) T(%s == %s ? 1.0 : 0.0);" % (t1, t2), {"o": sp.Piecewise((1, eq), (0, True))}, rows=EQ + [q[:1] + q[2:] + q[1:2] for q in EQ])
        s("unequal %s%s" % (k1, k2), ps + [("o", "N")], "::new ((void*)o) T(%s != %s ? 1.0 : 0.0);" % (t1, t2), {"o": sp.Piecewise((0, eq), (1, True))}, rows=EQ + [q[:1] + q[2:] + q[1:2] for q in EQ])
    if tm in ("F", "Ff"):
        xd, yd = sp.symbols("x_d y_d")
        s("derivative", AB[:2] + RI, "auto d = xad::derivative(Z(x, y)); Z r(T(d.real()), T(d.imag())); " + put, res(C(xd, yd)))
        s("getDerivative", AB[:2] + RI, "auto d = Z(x, y).getDerivative(); Z r(T(d.real()), T(d.imag())); " + put, res(C(xd, yd)))
        s("getAdjoint", AB[:2] + RI, "auto d = Z(x, y).getAdjoint(); Z r(T(d.real()), T(d.imag())); " + put, res(C(xd, yd)))
        for f in ("setDerivative", "setAdjoint"):
            s(f, AB[:2] + [("z", "S"), ("w", "S")] + RI, "Z q(x, y); q.%s(z, w); auto d = xad::derivative(q); Z r(T(d.real()), T(d.imag())); " % f + put, res(C(z, w)))
            s(f + " value", AB[:2] + [("z", "S"), ("w", "S")] + RI, "Z q(x, y); q.%s(z, w); Z r(T(xad::value(q.real())), T(xad::value(q.imag()))); " % f + put, res(C(V("x"), V("y"))))
            s(f + " real only", AB[:2] + [("z", "S")] + RI, "Z q(x, y); q.%s(z); auto d = q.getDerivative(); Z r(T(d.real()), T(d.imag())); " % f + put, res(C(z, 0)))
    if first:
        s("value", AB[:2] + RI, "auto d = xad::value(Z(x, y)); Z r(T(d.real()), T(d.imag())); " + put, res(C(V("x"), V("y"))))
        s("value of plain", [("z", "S"), ("w", "S")] + RI, "auto d = xad::value(D(z, w)); Z r(T(d.real()), T(d.imag())); " + put, res(C(z, w)))
    s("unary minus", AB[:2] + RI, "Z r = -Z(x, y); " + put, res(-a))
    s("unary plus", AB[:2] + RI, "Z q(x, y); Z r = +q; " + put, res(a))
    s("construct default", RI, "Z r; " + put, res(C(0)))
    s("construct real", AB[:1] + RI, "Z r(x); " + put, res(C(x)))
    s("construct expr", AB[:2] + RI, "Z r(x * y); " + put, res(C(x * y)))
    s("construct exprs", AB + RI, "Z r(x * y, z * w); " + put, res(C(x * y, z * w)))
    s("copy", AB[:2] + RI, "Z q(x, y); Z r(q); q = Z(y, x); " + put, res(a))
    s("assign complex", AB + RI, "Z q(x, y); Z r(z, w); r = q; " + put, res(a))
    s("assign real", AB[:3] + RI, "Z r(x, y); r = z; " + put, res(C(z)))
    s("assign expr", AB[:3] + RI, "Z r(x, y); r = z * x; " + put, res(C(z * x)))
    s("swap", AB + RI, "Z q(x, y), r(z, w); std::swap(q, r); r += q * q; " + put, res(a + b * b))
    s("setters", AB + RI, "Z r(x, y); r.real(z * x); r.imag(w + y); " + put, res(C(z * x, w + y)))
    s("references", AB + RI, "Z r(x, y); r.real() *= z; r.imag() += w; " + put, res(C(x * z, y + w)))
    s("free accessors", AB[:2] + RI, "Z q(x, y); Z r(std::imag(q), std::real(q)); " + put, res(C(y, x)))
    if first:
        s("construct scalar", S + RI, "Z r(w); " + put, res(C(w)))
        s("construct double complex", [("z", "S"), ("w", "S")] + RI, "Z r(D(z, w)); " + put, res(b))
        s("assign double complex", AB[:2] + [("z", "S"), ("w", "S")] + RI, "Z r(x, y); r = D(z, w); " + put, res(b))
        s("assign scalar", AB[:2] + S + RI, "Z r(x, y); r = w; " + put, res(C(w)))
    # real-valued and structural functions
    one = [("o", "N")]
    for nm, f in (("norm", norm), ("abs", abs_), ("arg", arg)):
        s(nm, AB[:2] + one, "T r = %s(Z(x, y)); ::new ((void*)o) T(r);" % nm, {"o": f(a)}, rows=QUAD + [(1., 0., 0., 0.), (0., 2., 0., 0.), (0., -2., 0., 0.)])
        s("std " + nm, AB[:2] + one, "T r = std::%s(Z(x, y)); ::new ((void*)o) T(r);" % nm, {"o": f(a)})
    s("conj", AB[:2] + RI, "Z r = conj(Z(x, y)); " + put, res(C(x, -y)))
    s("proj", AB[:2] + RI, "Z r = proj(Z(x, y)); " + put, res(a), rows=QUAD + [(0., 0., 0., 0.), (1., 0., 0., 0.)])
    POS = [(1.3, 0.7, 2.2, 0.4), (2.6, 1.9, 0.5, 3.1), (0.4, -2.5, 1., 1.), (0., 1.5, 0., 0.), (2., 0., 0., 0.)]
    for e, v in (("x", x), ("x * x", x * x), ("-x", -x)):
        s("norm of %s" % e, AB[:1] + one, "T r = std::norm(%s); ::new ((void*)o) T(r);" % e, {"o": v * v})
        s("conj of %s" % e, AB[:1] + RI, "Z r = std::conj(%s); " % e + put, res(C(v)))
        s("real of %s" % e, AB[:1] + RI, "Z r(std::real(%s), std::imag(%s)); " % (e, e) + put, res(C(v)))
        s("proj of %s" % e, AB[:1] + RI, "Z r = std::proj(%s); " % e + put, res(C(v)))
        s("arg of %s" % e, AB[:1] + one, "T r = std::arg(%s); ::new ((void*)o) T(r);" % e, {"o": sp.Piecewise((0, v > 0), (sp.pi, True))})
        s("polar of %s" % e, AB[:1] + RI, "Z r = std::polar(%s); " % e + put, res(C(v)), rows=POS)
    for k1, t1, v1 in (("A", "x", x), ("E", "(x * x)", x * x), ("U", "(-x)", -x), ("S", "x", x)):
        for k2, t2, v2 in (("A", "y", y), ("E", "(y * z)", y * z), ("U", "(-y)", -y), ("S", "y", y)):
            if (k1 == "S" or k2 == "S") and (not first or k1 == k2):
                continue
            ps = [("x", "S" if k1 == "S" else "C"), ("y", "S" if k2 == "S" else "C")] + ([("z", "C")] if k2 == "E" else [])
            s("polar %s%s" % (k1, k2), ps + RI, "Z r = std::polar(%s, %s); " % (t1, t2) + put, res(polar(v1, v2)), rows=POS)
    # elementary functions
    for nm, f in FNS.items():
        if nm == "log10" and not first:    # not offered for nested types
            continue
        s("fn " + nm, AB[:2] + RI, "Z r = %s(Z(x, y)); " % nm + put, res(f(a)), rows=QUAD + [q + (1., 1.) for q in AXES.get(nm, [])])
        s("std fn " + nm, AB[:2] + RI, "Z r = std::%s(Z(x, y)); " % nm + put, res(f(a)))
        s("composed " + nm, AB + RI, "Z q(x, y); Z r = %s(q * Z(z, w)) + q; " % nm + put, res(f(a * b) + a))
    # powers
    PW = QUAD + [(2., 0., 1., 1.), (0., 1., 2., 0.)]
    for k1, k2 in [("Z", k) for k in "ZDAES"] + [(k, "Z") for k in "DAEUS"]:
        if not first and (k1 in "DS" or k2 in "DS"):
            continue
        t1, t2, v1, v2, ps = pair(k1, k2)
        s("pow %s%s" % (k1, k2), ps + RI, "Z r = pow(%s, %s); " % (t1, t2) + put, res(pow_(v1, v2)), rows=QUAD + ([(2., .5, 1., 1.)] if k1 in "ZD" else []))
    for ty in () if not first else ("int", "short", "long", "long long", "unsigned", "unsigned short", "unsigned long", "unsigned long long"):
        s("pow Z %s" % ty, AB[:2] + [("i", "I")] + RI, "Z r = pow(Z(x, y), (%s)i); " % ty + put, res(pow_(a, C(i))), rows=QUAD[:2] if "unsigned" not in ty else QUAD[:1])
        s("pow %s Z" % ty, [("i", "I")] + AB[:2] + RI, "Z r = pow((%s)i, Z(x, y)); " % ty + put, res(pow_(C(i), a)), rows=[(2., -0.7, 1., 1.), (-2.6, 1.9, .5, 2.)] if "unsigned" not in ty else QUAD[:1])
    return out
