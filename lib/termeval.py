"""Guard evaluation at region witnesses, ite-free leaf terms, conversion of leaf
terms to sympy and equality of terms by normal form."""
import math, struct
import mpmath as mp
import sympy as sp
from fractions import Fraction
from irterm import T, mk, TRUE, FALSE, show

mp.mp.dps = 40


class UB(Exception):
    pass


class NoEval(Exception):
    pass


class OutOfDomain(Exception):
    """the term is undefined (domain error, division by zero) at this point"""


def wrap(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def f_round(x):
    x = mp.mpf(x)
    return mp.floor(abs(x) + mp.mpf(1) / 2) * (1 if x >= 0 else -1)


def f_trunc(x):
    return mp.floor(x) if x >= 0 else mp.ceil(x)


def f_rint(x):
    return mp.nint(x)


def f_fmod(a, b):
    if b == 0:
        raise OutOfDomain()
    return a - b * f_trunc(a / b)


def f_remainder(a, b):
    if b == 0:
        raise OutOfDomain()
    return a - b * mp.nint(a / b)


def f_remquo_q(a, b):
    q = int(mp.nint(a / b))
    # the C library only promises the sign and (at least) the low three bits
    s = -1 if q < 0 else 1
    return s * (abs(q) & 7)


def f_cbrt(x):
    return mp.cbrt(x) if x >= 0 else -mp.cbrt(-x)


def f_frexp(x):
    return mp.frexp(x)[0] if x != 0 else mp.mpf(0)


def f_frexp_e(x):
    return int(mp.frexp(x)[1]) if x != 0 else 0


def realchk(f):
    def g(*a):
        r = f(*a)
        if isinstance(r, mp.mpc):
            if r.imag != 0:
                raise OutOfDomain()
            r = r.real
        return r
    return g


def f_log(x):
    if x <= 0:
        raise OutOfDomain()
    return mp.log(x)


def f_pow(a, b):
    a, b = mp.mpf(a), mp.mpf(b)
    if a == 0:
        if b > 0:
            return mp.mpf(0)
        if b == 0:
            return mp.mpf(1)
        raise OutOfDomain()
    if a < 0 and b != mp.floor(b):
        raise OutOfDomain()
    if b == mp.floor(b):
        return a ** int(b)
    return mp.power(a, b)


def f_sqrt(x):
    if x < 0:
        raise OutOfDomain()
    return mp.sqrt(x)


def dom11(f):
    def g(x):
        if x < -1 or x > 1:
            raise OutOfDomain()
        return f(x)
    return g


def f_atanh(x):
    if not -1 < x < 1:
        raise OutOfDomain()
    return mp.atanh(x)


def f_acosh(x):
    if x < 1:
        raise OutOfDomain()
    return mp.acosh(x)


def f_sign(x):
    return mp.sign(x)


def f_signbit(x):
    return 1 if x < 0 else 0


NUM = {
    "sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "asin": dom11(mp.asin), "acos": dom11(mp.acos), "atan": mp.atan,
    "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh, "asinh": mp.asinh, "acosh": f_acosh, "atanh": f_atanh,
    "log": f_log, "log10": lambda x: f_log(x) / mp.log(10), "log2": lambda x: f_log(x) / mp.log(2),
    "log1p": lambda x: f_log(1 + x), "exp": mp.exp, "exp2": lambda x: mp.power(2, x), "expm1": lambda x: mp.exp(x) - 1,
    "sqrt": f_sqrt, "cbrt": f_cbrt, "erf": mp.erf, "erfc": mp.erfc, "fabs": abs, "floor": mp.floor, "ceil": mp.ceil,
    "trunc": f_trunc, "round": f_round, "rint": f_rint, "nearbyint": f_rint, "roundeven": f_rint,
    "pow": f_pow, "fmod": f_fmod, "atan2": mp.atan2, "hypot": lambda a, b: mp.sqrt(a * a + b * b),
    "remainder": f_remainder, "remquo": f_remainder, "remquo_q": f_remquo_q, "nextafter": lambda a, b: a,
    "frexp": f_frexp, "frexp_e": f_frexp_e, "modf": lambda x: x - f_trunc(x), "modf_i": f_trunc,
    "ldexp": lambda x, e: x * mp.power(2, e), "scalbn": lambda x, e: x * mp.power(2, e),
    "scalbln": lambda x, e: x * mp.power(2, e),
    "fmax": max, "fmin": min, "maxnum": max, "minnum": min, "maximum": max, "minimum": min,
    "fma": lambda a, b, c: a * b + c, "fmuladd": lambda a, b, c: a * b + c,
    "copysign": lambda a, b: abs(a) if b >= 0 else -abs(a), "fdim": lambda a, b: max(a - b, 0),
    "umax": max, "umin": min, "smax": max, "smin": min, "abs": lambda a, *_: abs(a),
    "powi": lambda a, n: f_pow(a, n), "lgamma": mp.loggamma, "tgamma": mp.gamma,
    "canonicalize": lambda a: a, "logb": lambda a: mp.floor(mp.log(abs(a), 2)),
}


def canon_fn(n):
    """sinf / sinl / __sin_finite -> sin"""
    if n in NUM:
        return n
    if n and n[-1] in "fl" and n[:-1] in NUM:
        return n[:-1]
    return n


# comparisons met during evaluation, with the outcomes seen (-1, 0, 1); set by witness refinement
GUARDS = None


def guards_on():
    global GUARDS
    GUARDS = {}
    return GUARDS


def guards_off():
    global GUARDS
    GUARDS = None


def refine(guards, bases, mkenv, limit=24):
    """witnesses for guard outcomes not met so far: for every comparison in the code that was not seen on all three
    sides, move one variable onto its boundary and next to it. bases: list of dicts (assignments); returns new dicts"""
    out, seen = [], set()
    todo = [(t, o) for t, o in list(guards.values()) if len(o) < 3]
    for t, o in todo:
        got = set(o)
        for base in bases:
            if len(got) == 3 or len(out) >= limit:
                break

            def f(v, n):
                r = dict(base)
                r[n] = v
                ev = Evaluator(mkenv(r))
                return ev.num(t.a[0]) - ev.num(t.a[1])
            for n, v in base.items():
                if len(got) == 3:
                    break
                try:
                    isint = isinstance(v, int)
                    x0 = mp.mpf(v)
                    x1 = x0 + 1
                    if isint:
                        x0, x1 = v, v + 1
                    f0, f1 = f(x0, n), f(x1, n)
                    if f0 == f1:
                        continue
                    for _ in range(12):
                        if f1 == 0 or f0 == f1:
                            break
                        x2 = x1 - f1 * (x1 - x0) / (f1 - f0)
                        if isint:
                            x2 = int(mp.nint(x2))
                        x0, f0, x1 = x1, f1, x2
                        f1 = f(x1, n)
                    if not (abs(f1) <= mp.mpf(10) ** -25 * (1 + abs(x1))) or abs(x1) > 1e12:
                        continue
                    d = 1 if isint else (abs(x1) * mp.mpf("0.001") or mp.mpf("0.001"))
                    for k, y in ((0, x1), (1, x1 + d), (-1, x1 - d)):
                        key = (t.id, n, mp.nstr(mp.mpf(y), 20))
                        if key not in seen:
                            seen.add(key)
                            r = dict(base)
                            r[n] = int(y) if isint else y
                            g = f(r[n], n)
                            sg = (g > 0) - (g < 0)
                            if sg not in got:
                                got.add(sg)
                                out.append(r)
                except (NoEval, UB, OutOfDomain, ZeroDivisionError, ValueError, OverflowError, TypeError):
                    continue
        if len(out) >= limit:
            break
    return out


class Evaluator:
    """evaluates terms under env (leaf term -> python number) and resolves ites"""

    def __init__(self, env):
        self.env = env
        self.memo = {}
        self.rmemo = {}

    def num(self, t):
        if t.id in self.memo:
            r = self.memo[t.id]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self._num(t)
        except (UB, NoEval, OutOfDomain) as e:
            self.memo[t.id] = e
            raise
        except (ZeroDivisionError, ValueError, OverflowError) as e:
            ee = OutOfDomain(str(e))
            self.memo[t.id] = ee
            raise ee
        self.memo[t.id] = r
        return r

    def _num(self, t):
        op = t.op
        if op == "cf":
            if math.isinf(t.k) or math.isnan(t.k):
                return mp.mpf(t.k)
            return mp.mpf(t.k)
        if op == "ci":
            return t.k
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "ite":
            return self.num(t.a[1] if self.num(t.a[0]) else t.a[2])
        if op == "and" and t.k is None:
            return self.num(t.a[0]) and self.num(t.a[1])
        if op == "or" and t.k is None:
            return self.num(t.a[0]) or self.num(t.a[1])
        if op == "not":
            return not self.num(t.a[0])
        if op == "xor" and t.k is None:
            return bool(self.num(t.a[0])) != bool(self.num(t.a[1]))
        r = self.env(t)
        if r is not None:
            return r
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = self.num(t.a[0]), self.num(t.a[1])
            a, b = self.fl(a), self.fl(b)
            if op == "fadd":
                return a + b
            if op == "fsub":
                return a - b
            if op == "fmul":
                return a * b
            if b == 0:
                raise OutOfDomain("division by zero")
            return a / b
        if op == "frem":
            return f_fmod(self.num(t.a[0]), self.num(t.a[1]))
        if op == "fneg":
            return -self.fl(self.num(t.a[0]))
        if op == "fcmp":
            a, b = self.num(t.a[0]), self.num(t.a[1])
            p = t.k
            if GUARDS is not None and not (mp.isnan(a) or mp.isnan(b)):
                GUARDS.setdefault(t.id, (t, set()))[1].add((a > b) - (a < b))
            un = mp.isnan(a) or mp.isnan(b) if not isinstance(a, (int, bool)) else False
            if p == "ord":
                return not un
            if p == "uno":
                return un
            if p == "true":
                return True
            if p == "false":
                return False
            if un:
                return p[0] == "u"
            d = a - b
            # values that agree to 25 digits are on the boundary: treat as equal
            eq = a == b if mp.isinf(a) or mp.isinf(b) else abs(d) <= mp.mpf(10) ** -25 * max(1, abs(a), abs(b)) if d == d else False
            lt, gt = (not eq and a < b), (not eq and a > b)
            return {"eq": eq, "ne": not eq, "lt": lt, "le": lt or eq, "gt": gt, "ge": gt or eq}[p[1:]]
        if op == "icmp":
            a, b = self.bits(self.num(t.a[0]), t.a[1]), self.bits(self.num(t.a[1]), t.a[0])
            if t.k[0] == "u":
                a, b = a & (2 ** 64 - 1), b & (2 ** 64 - 1)
            return {"eq": a == b, "ne": a != b, "slt": a < b, "ult": a < b, "sgt": a > b, "ugt": a > b,
                    "sle": a <= b, "ule": a <= b, "sge": a >= b, "uge": a >= b}[t.k]
        if op in ("fpext", "fptrunc"):
            return self.num(t.a[0])
        if op in ("sitofp",):
            return mp.mpf(int(self.num(t.a[0])))
        if op == "uitofp":
            v = self.num(t.a[0])
            if t.k[0] == "i1":
                return mp.mpf(1 if v else 0)
            return mp.mpf(int(v) & ((1 << int(t.k[0][1:])) - 1))
        if op in ("fptosi", "fptoui"):
            return int(f_trunc(self.num(t.a[0])))
        if op in ("zext", "sext", "trunc"):
            v = self.num(t.a[0])
            if isinstance(v, bool):
                v = (1 if v else 0) if op == "zext" else (-1 if v else 0)
                return v
            sw, dw = int(t.k[0][1:]), int(t.k[1][1:])
            if op == "zext":
                return v & ((1 << sw) - 1)
            if op == "trunc":
                return wrap(v, dw) if dw > 1 else bool(v & 1)
            return v
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "sdiv", "udiv", "srem", "urem") and t.k:
            a, b = self.num(t.a[0]), self.num(t.a[1])
            if isinstance(a, mp.mpf) or isinstance(b, mp.mpf):
                raise NoEval("integer operation on the bits of a floating-point value")
            a, b = int(a), int(b)
            w = int(t.k[1:])
            if op in ("shl", "lshr", "ashr") and not (0 <= b < w):
                raise UB("shift by %d of a %d-bit integer" % (b, w))
            if op == "shl" and a == 1 and b == w - 1:
                raise UB("1 << %d overflows a %d-bit int" % (b, w))
            M = (1 << w) - 1
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "shl": lambda: a << b,
                 "lshr": lambda: (a & M) >> b, "ashr": lambda: a >> b, "and": lambda: a & b,
                 "or": lambda: a | b, "xor": lambda: a ^ b,
                 "sdiv": lambda: int(a / b), "udiv": lambda: (a & M) // (b & M),
                 "srem": lambda: int(math.fmod(a, b)), "urem": lambda: (a & M) % (b & M)}[op]()
            return wrap(r, w)
        if op == "call":
            n = canon_fn(t.k)
            if n == "is_fpclass":
                x, m = self.num(t.a[0]), int(self.num(t.a[1]))
                cls = 1 | 2 if mp.isnan(x) else None
                if cls is None:
                    if mp.isinf(x):
                        cls = 0x200 if x > 0 else 0x4
                    elif x == 0:
                        cls = 0x40
                    else:
                        cls = 0x100 if x > 0 else 0x8
                return bool(cls & m)
            if n in NUM:
                try:
                    args = [self.num(x) for x in t.a]
                    r = realchk(NUM[n])(*args)
                except (ValueError, ZeroDivisionError, OverflowError) as e:
                    raise OutOfDomain(str(e))
                return r
        if op == "bitcast" and t.k in (("double", "i64"), ("float", "i32")):
            # only the sign bit is meaningful here
            x = self.num(t.a[0])
            if t.k[0] == "double":
                return struct.unpack("<q", struct.pack("<d", float(x)))[0]
            return struct.unpack("<i", struct.pack("<f", float(x)))[0]
        raise NoEval("%s %s" % (op, t.k))

    @staticmethod
    def bits(x, other):
        """integer reading of a comparison operand; a floating value reloaded as an integer gives its bits"""
        if isinstance(x, mp.mpf):
            if other.op == "ci" and other.k in (0, -1):
                return struct.unpack("<q", struct.pack("<d", float(x)))[0]
            raise NoEval("comparison of the bits of a floating-point value")
        return int(x)

    @staticmethod
    def fl(x):
        if isinstance(x, bool):
            return mp.mpf(1 if x else 0)
        return x

    def resolve(self, t):
        """the ite-free term that is selected at this point"""
        if t.id in self.rmemo:
            return self.rmemo[t.id]
        if t.op == "ite":
            r = self.resolve(t.a[1] if self.num(t.a[0]) else t.a[2])
        elif t.op in ("fcmp", "icmp", "and", "or", "not", "xor") and (t.op != "and" and t.op != "or" and t.op != "xor" or t.k is None):
            r = TRUE if self.num(t) else FALSE
        elif not t.a or t.op in ("mem", "ptr"):
            r = t
        else:
            r = mk(t.op, tuple(self.resolve(x) for x in t.a), t.k)
            if r.loc is None:
                r.loc = t.loc
        self.rmemo[t.id] = r
        return r


# ------------------------------------------------------------------ sympy
def _F(name, nargs, derivs=None):
    def fdiff(self, argindex=1):
        if derivs is None:
            return sp.Integer(0)
        return derivs(self, argindex)
    cls = type(name, (sp.Function,), {"nargs": nargs, "fdiff": fdiff, "is_real": True})
    return cls


floor_ = _F("floor_", 1)
ceil_ = _F("ceil_", 1)
trunc_ = _F("trunc_", 1)
round_ = _F("round_", 1)
rint_ = _F("rint_", 1)
fmod_ = _F("fmod_", 2, lambda s, i: sp.Integer(1) if i == 1 else -trunc_(s.args[0] / s.args[1]))
remainder_ = _F("remainder_", 2, lambda s, i: sp.Integer(1) if i == 1 else -rint_(s.args[0] / s.args[1]))
remquo_q_ = _F("remquo_q_", 2)
nextafter_ = _F("nextafter_", 2, lambda s, i: sp.Integer(1) if i == 1 else sp.Integer(0))
frexp_e_ = _F("frexp_e_", 1)
frexp_ = _F("frexp_", 1, lambda s, i: sp.Integer(2) ** (-frexp_e_(s.args[0])))
modf_ = _F("modf_", 1, lambda s, i: sp.Integer(1))
cbrt_ = _F("cbrt_", 1, lambda s, i: 1 / (3 * cbrt_(s.args[0]) ** 2))
SPNUM = {"floor_": mp.floor, "ceil_": mp.ceil, "trunc_": f_trunc, "round_": f_round, "rint_": f_rint, "fmod_": f_fmod,
         "remainder_": f_remainder, "remquo_q_": f_remquo_q, "nextafter_": lambda a, b: a, "frexp_e_": f_frexp_e,
         "frexp_": f_frexp, "modf_": lambda x: x - f_trunc(x), "cbrt_": f_cbrt}

SPF = {
    "sin": sp.sin, "cos": sp.cos, "tan": sp.tan, "asin": sp.asin, "acos": sp.acos, "atan": sp.atan, "sinh": sp.sinh,
    "cosh": sp.cosh, "tanh": sp.tanh, "asinh": sp.asinh, "acosh": sp.acosh, "atanh": sp.atanh, "log": sp.log,
    "log10": lambda x: sp.log(x) / sp.log(10), "log2": lambda x: sp.log(x) / sp.log(2),
    "log1p": lambda x: sp.log(1 + x), "exp": sp.exp, "exp2": lambda x: sp.Integer(2) ** x,
    "expm1": lambda x: sp.exp(x) - 1, "sqrt": sp.sqrt, "cbrt": cbrt_, "erf": sp.erf,
    "erfc": lambda x: 1 - sp.erf(x),
    "floor": floor_, "ceil": ceil_, "trunc": trunc_, "round": round_, "rint": rint_, "nearbyint": rint_,
    "pow": lambda a, b: a ** b, "fmod": fmod_, "atan2": sp.atan2, "hypot": lambda a, b: sp.sqrt(a * a + b * b),
    "remainder": remainder_, "remquo": remainder_, "remquo_q": remquo_q_, "nextafter": nextafter_,
    "frexp": frexp_, "frexp_e": frexp_e_, "modf": modf_, "modf_i": trunc_,
    "ldexp": lambda x, e: x * sp.Integer(2) ** e, "scalbn": lambda x, e: x * sp.Integer(2) ** e,
    "fma": lambda a, b, c: a * b + c, "fmuladd": lambda a, b, c: a * b + c,
}

_CONST = {}
for nm, v in (("log(2)", sp.log(2)), ("1/log2", 1 / sp.log(2)), ("1/log10", 1 / sp.log(10)), ("log(10)", sp.log(10)), ("2/sqrtpi", 2 / sp.sqrt(sp.pi)),
              ("pi", sp.pi), ("pi/2", sp.pi / 2), ("pi/4", sp.pi / 4), ("2pi", 2 * sp.pi), ("180/pi", 180 / sp.pi), ("pi/180", sp.pi / 180),
              ("sqrt2", sp.sqrt(2)), ("1/sqrt2", 1 / sp.sqrt(2)), ("1/pi", 1 / sp.pi), ("e", sp.E)):
    _CONST[nm] = (float(sp.N(v, 30)), v)


def const_sym(x, single):
    if x == 0:
        return sp.Integer(0)
    if math.isnan(x) or math.isinf(x):
        raise NoEval("constant %r" % x)
    if x == int(x) and abs(x) < 2 ** 53:
        return sp.Integer(int(x))
    eps = 2e-7 if single else 4e-16
    fr = Fraction(x).limit_denominator(2000)
    if fr != 0 and abs(float(fr) - x) <= eps * abs(x):
        return sp.Rational(fr.numerator, fr.denominator)
    for n, (v, s) in _CONST.items():
        for sg in (1, -1):
            if abs(v * sg - x) <= eps * abs(v):
                return s * sg
    return sp.Rational(*Fraction(x).as_integer_ratio())


class ToSym:
    def __init__(self, leaf, single=False, absatom=None):
        self.leaf = leaf        # term -> sympy or None
        self.single = single
        self.memo = {}
        self.ev = absatom       # Evaluator at the witness, to choose the branch of fabs/copysign/max

    def sym(self, t):
        if t.id in self.memo:
            return self.memo[t.id]
        r = self._sym(t)
        self.memo[t.id] = r
        return r

    def _sym(self, t):
        l = self.leaf(t)
        if l is not None:
            return l
        op = t.op
        if op == "cf":
            return const_sym(t.k, self.single)
        if op == "ci":
            return sp.Integer(t.k)
        if op in ("true", "false"):
            return sp.Integer(1 if op == "true" else 0)
        if op == "fadd":
            return self.sym(t.a[0]) + self.sym(t.a[1])
        if op == "fsub":
            return self.sym(t.a[0]) - self.sym(t.a[1])
        if op == "fmul":
            return self.sym(t.a[0]) * self.sym(t.a[1])
        if op == "fdiv":
            return self.sym(t.a[0]) / self.sym(t.a[1])
        if op == "fneg":
            return -self.sym(t.a[0])
        if op in ("fpext", "fptrunc", "sitofp", "uitofp", "zext", "sext", "trunc"):
            return self.sym(t.a[0])
        if op == "shl" and t.a[0].op == "ci":
            return t.a[0].k * sp.Integer(2) ** self.sym(t.a[1])
        if op in ("add", "sub", "mul"):
            a, b = self.sym(t.a[0]), self.sym(t.a[1])
            return a + b if op == "add" else a - b if op == "sub" else a * b
        if op == "call":
            n = canon_fn(t.k)
            if n in ("fabs", "abs"):
                a = self.sym(t.a[0])
                return a if self.ev.num(t.a[0]) >= 0 else -a
            if n == "copysign":
                a = self.sym(t.a[0])
                a = a if self.ev.num(t.a[0]) >= 0 else -a
                return a if self.ev.num(t.a[1]) >= 0 else -a
            if n in ("fmax", "maxnum", "maximum"):
                return self.sym(t.a[0] if self.ev.num(t.a[0]) >= self.ev.num(t.a[1]) else t.a[1])
            if n in ("fmin", "minnum", "minimum"):
                return self.sym(t.a[0] if self.ev.num(t.a[0]) <= self.ev.num(t.a[1]) else t.a[1])
            if n in SPF:
                return SPF[n](*[self.sym(x) for x in t.a])
        raise NoEval("%s %s" % (op, t.k))


_eqmemo = {}


def _norm(e):
    e = e.rewrite(sp.tan, sp.sin) if False else e
    e = e.replace(lambda x: isinstance(x, sp.tan), lambda x: sp.sin(x.args[0]) / sp.cos(x.args[0]))
    e = e.replace(lambda x: isinstance(x, sp.erfc), lambda x: 1 - sp.erf(x.args[0]))
    return e


def equal_sym(a, b):
    """True if a-b is zero by normal form; None if it cannot be established"""
    key = (a, b)
    if key in _eqmemo:
        return _eqmemo[key]
    r = _equal(a, b)
    _eqmemo[key] = r
    return r


def _equal(a, b):
    if a == b:
        return True
    d = a - b
    if d == 0:
        return True
    try:
        d = _norm(sp.sympify(d))
        if sp.expand(d) == 0:
            return True
        n, _ = sp.fraction(sp.together(sp.expand_power_exp(sp.expand(d))))
        n = sp.expand(n)
        if n == 0:
            return True
        # sin^2+cos^2, cosh^2-sinh^2
        n2 = n.replace(lambda x: isinstance(x, sp.Pow) and isinstance(x.base, sp.sin) and x.exp.is_Integer and x.exp >= 2,
                       lambda x: (1 - sp.cos(x.base.args[0]) ** 2) ** (x.exp // 2) * x.base ** (x.exp % 2))
        n2 = n2.replace(lambda x: isinstance(x, sp.Pow) and isinstance(x.base, sp.sinh) and x.exp.is_Integer and x.exp >= 2,
                        lambda x: (sp.cosh(x.base.args[0]) ** 2 - 1) ** (x.exp // 2) * x.base ** (x.exp % 2))
        if sp.expand(n2) == 0:
            return True
        n3 = sp.expand(sp.powsimp(sp.powdenest(n2, force=True), force=True))
        if n3 == 0:
            return True
        if sp.count_ops(n) < 120 and sp.simplify(n3) == 0:
            return True
    except Exception:
        return None
    return None


def sp_num(expr, subs):
    """numeric value of a spec expression"""
    c = LAMBDAS.get(expr)
    if c is None:
        syms = sorted(expr.free_symbols, key=str)
        c = LAMBDAS[expr] = (syms, sp.lambdify(syms, expr, modules=[SPNUM, "mpmath"], cse=True))
    return c[1](*[subs[s] for s in c[0]])


LAMBDAS = {}


def close(a, b, tol):
    a, b = mp.mpf(a), mp.mpf(b)
    if mp.isnan(a) or mp.isnan(b) or mp.isinf(a) or mp.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(abs(a), abs(b)) + mp.mpf(10) ** -20
