"""Reference definitions of the mathematical operations: value on each branch,
domain, behaviour at kinks. Derivatives are obtained by differentiating the
reference value, never taken from the library."""
import sympy as sp
import mpmath as mp
from termeval import (floor_, ceil_, trunc_, round_, rint_, fmod_, remainder_, remquo_q_, nextafter_, frexp_, frexp_e_,
                      modf_, cbrt_)

SKIP = "skip"      # no derivative is defined here
DIFF = "diff"      # this partial is the derivative of the value


class Spec:
    def __init__(self, name, n, val, dom=None, kink=None, root=None, pts=None):
        self.name, self.n, self.val = name, n, val
        self.dom = dom or (lambda *a: True)
        self.kink = kink or (lambda *a: None)   # None: smooth here; SKIP; or list of partials
        self.root = root                        # the C library function the value has to come from
        self.pts = pts                          # extra witness points


S = {}


def add(name, n, val, **kw):
    S[name] = Spec(name, n, val, **kw)


def u(name, f, dom=None, root=True, **kw):
    add(name, 1, lambda s, n: f(s[0]), dom=dom, root=name if root is True else root, **kw)


u("sin", sp.sin); u("cos", sp.cos)
u("tan", sp.tan, lambda x: abs(mp.cos(x)) > 0.01)
u("asin", sp.asin, lambda x: -1 < x < 1); u("acos", sp.acos, lambda x: -1 < x < 1); u("atan", sp.atan)
u("sinh", sp.sinh); u("cosh", sp.cosh); u("tanh", sp.tanh); u("asinh", sp.asinh)
u("acosh", sp.acosh, lambda x: x > 1); u("atanh", sp.atanh, lambda x: -1 < x < 1)
u("log", sp.log, lambda x: x > 0); u("log10", lambda x: sp.log(x) / sp.log(10), lambda x: x > 0)
u("log2", lambda x: sp.log(x) / sp.log(2), lambda x: x > 0); u("log1p", lambda x: sp.log(1 + x), lambda x: x > -1)
u("exp", sp.exp); u("exp2", lambda x: sp.Integer(2) ** x); u("expm1", lambda x: sp.exp(x) - 1)
u("sqrt", sp.sqrt, lambda x: x > 0); u("cbrt", cbrt_, lambda x: x != 0)
u("erf", sp.erf); u("erfc", lambda x: 1 - sp.erf(x))
add("abs", 1, lambda s, n: s[0] if n[0] >= 0 else -s[0], kink=lambda x: [0] if x == 0 else None)
S["fabs"] = S["abs"]
nonint = lambda x: x != mp.floor(x)
for nm, f in (("floor", floor_), ("ceil", ceil_), ("trunc", trunc_)):
    add(nm, 1, (lambda f: lambda s, n: f(s[0]))(f), kink=lambda x: None if nonint(x) else [0])
add("round", 1, lambda s, n: round_(s[0]), kink=lambda x: None)
add("degrees", 1, lambda s, n: s[0] * 180 / sp.pi)
add("radians", 1, lambda s, n: s[0] * sp.pi / 180)
add("neg", 1, lambda s, n: -s[0])
add("pos", 1, lambda s, n: s[0])
add("add", 2, lambda s, n: s[0] + s[1])
add("sub", 2, lambda s, n: s[0] - s[1])
add("mul", 2, lambda s, n: s[0] * s[1])
add("div", 2, lambda s, n: s[0] / s[1], dom=lambda a, b: b != 0)
add("pow", 2, lambda s, n: s[0] ** s[1],
    dom=lambda a, b: a > 0 or (a < 0 and b == mp.floor(b)) or (a == 0 and b >= 1 and b == mp.floor(b)),
    kink=lambda a, b: [DIFF, SKIP] if a <= 0 else None, root="pow", pts=[(-1.3, 2.0), (-2.7, 3.0), (0.0, 2.0), (0.29, -1.3), (1.7, 4.0), (2.0, 1.0), (-0.31, -2.0), (3.1, 0.0)])
add("max", 2, lambda s, n: s[0] if n[0] >= n[1] else s[1], kink=lambda a, b: [sp.Rational(1, 2)] * 2 if a == b else None)
add("min", 2, lambda s, n: s[0] if n[0] <= n[1] else s[1], kink=lambda a, b: [sp.Rational(1, 2)] * 2 if a == b else None)
S["fmax"], S["fmin"] = S["max"], S["min"]
intq = lambda a, b: b != 0 and a / b == mp.floor(a / b)
halfq = lambda a, b: b != 0 and abs(a / b - mp.floor(a / b) - mp.mpf(1) / 2) < 1e-12
add("fmod", 2, lambda s, n: fmod_(s[0], s[1]), dom=lambda a, b: b != 0 and not intq(a, b), root="fmod",
    pts=[(-7.0, 3.0), (7.0, -3.0), (-7.5, -2.0), (100.3, 3.0), (2.5, 9.0), (-2.5, 9.0)])
add("remainder", 2, lambda s, n: remainder_(s[0], s[1]), dom=lambda a, b: b != 0 and not halfq(a, b) and abs(a / b) < 1e6, root="remainder",
    pts=[(-7.0, 3.0), (7.0, -3.0), (100.3, 3.0), (2.5, 9.0), (-55.7, 2.0), (1000.2, 0.7), (-4321.7, 1.3), (25.0, 3.0)])
add("remquo", 2, lambda s, n: remainder_(s[0], s[1]), dom=S["remainder"].dom, root="remquo", pts=S["remainder"].pts)
add("atan2", 2, lambda s, n: sp.atan2(s[0], s[1]), dom=lambda a, b: a != 0 or b > 0, root="atan2")
add("hypot", 2, lambda s, n: sp.sqrt(s[0] ** 2 + s[1] ** 2), dom=lambda a, b: a != 0 or b != 0, root="hypot")
add("nextafter", 2, lambda s, n: nextafter_(s[0], s[1]), root="nextafter")


def _sabs(s, n):
    x, c = s
    if abs(n[0]) > n[1]:
        return x if n[0] > 0 else -x
    if n[0] < 0:
        return x * x * (2 / c + x / c ** 2)
    return x * x * (2 / c - x / c ** 2)


SA_PTS = [(0.0004, 0.001), (-0.0004, 0.001), (0.3, 0.7), (-0.3, 0.7), (0.9, 0.7), (-0.9, 0.7), (0.0, 0.7), (0.65, 0.7), (-0.65, 0.7)]
add("smooth_abs", 2, _sabs, dom=lambda x, c: c > 0 and abs(x) != c, pts=SA_PTS)
add("smooth_abs1", 1, lambda s, n: _sabs([s[0], sp.Rational(1, 1000)], [n[0], mp.mpf("0.001")]),
    dom=lambda x: abs(abs(x) - mp.mpf("0.001")) > 1e-9, pts=[(0.0004,), (-0.0004,), (0.0,), (0.0013,), (-0.0013,), (-0.00083,), (0.00083,)])


def _smx(sign):
    def f(s, n):
        return (s[0] + s[1] + sign * _sabs([s[0] - s[1], s[2]], [n[0] - n[1], n[2]])) / 2
    return f


SM_PTS = [(1.0, 1.2, 0.7), (1.2, 1.0, 0.7), (1.0, 1.0, 0.7), (3.0, 1.0, 0.7), (1.0, 3.0, 0.7), (0.3, 0.25, 0.2), (-0.3, -0.25, 0.2)]
smd = lambda x, y, c: c > 0 and abs(x - y) != c
add("smooth_max", 3, _smx(1), dom=smd, pts=SM_PTS)
add("smooth_min", 3, _smx(-1), dom=smd, pts=SM_PTS)
add("smooth_max2", 2, lambda s, n: _smx(1)([*s, sp.Rational(1, 1000)], [*n, mp.mpf("0.001")]), dom=lambda x, y: abs(abs(x - y) - mp.mpf("0.001")) > 1e-9,
    pts=[(1.0, 1.0004), (1.0004, 1.0), (2.0, 1.0), (1.0, 2.0), (1.5, 1.5)])
add("smooth_min2", 2, lambda s, n: _smx(-1)([*s, sp.Rational(1, 1000)], [*n, mp.mpf("0.001")]), dom=lambda x, y: abs(abs(x - y) - mp.mpf("0.001")) > 1e-9,
    pts=[(1.0, 1.0004), (1.0004, 1.0), (2.0, 1.0), (1.0, 2.0), (1.5, 1.5)])


def _cs(s, n):
    a = s[0] if n[0] >= 0 else -s[0]
    return a if n[1] >= 0 else -a


add("copysign", 2, _cs, dom=lambda a, b: b != 0 and a != 0, kink=lambda a, b: SKIP if a == 0 else None)
# second argument is an int parameter
add("ldexp", 2, lambda s, n: s[0] * sp.Integer(2) ** s[1])
add("scalbn", 2, lambda s, n: s[0] * sp.Integer(2) ** s[1])
INT_PTS = [(1.3, 0), (1.3, 5), (-0.7, -3), (2.2, 31), (2.2, 40), (-0.31, -35), (0.58, 100), (1.1, 1)]
S["ldexp"].pts = INT_PTS
S["scalbn"].pts = INT_PTS
add("frexp", 1, lambda s, n: frexp_(s[0]), dom=lambda x: x != 0, root="frexp",
    pts=[(0.001,), (3e5,), (-1e-4,), (1e12,), (-7e13,), (0.51,)])
add("modf", 1, lambda s, n: modf_(s[0]), root="modf", kink=lambda x: None if nonint(x) else SKIP)
nz2 = lambda a, b: a != 0 and b != 0
add("c_frexp2", 2, lambda s, n: frexp_(s[0]) + frexp_(s[1]), dom=nz2, pts=[(3.0, 100.0), (-0.01, 7.0), (1e5, 0.3)])
add("c_frexpr", 2, lambda s, n: frexp_(s[0] * frexp_(s[1])), dom=nz2, pts=[(3.0, 100.0), (-0.01, 7.0), (1e5, 0.3)])
add("c_modf2", 2, lambda s, n: modf_(s[0]) * modf_(s[1]), kink=lambda a, b: None if nonint(a) and nonint(b) else SKIP)
add("c_remquo2", 2, lambda s, n: remainder_(s[0], s[1]) * remainder_(s[1], s[0]),
    dom=lambda a, b: S["remainder"].dom(a, b) and S["remainder"].dom(b, a), pts=S["remainder"].pts)
# expression operands
E2 = lambda a, b: a * b
