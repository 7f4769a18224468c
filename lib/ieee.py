"""Term evaluation with IEEE double semantics (NaN, infinities, signed zeros), for comparing the
normalised term of an AD operation with the normalised term of the same operation on plain numbers."""
import ctypes, math, struct
from irterm import *
from termeval import NoEval, UB, canon_fn, wrap

_libm = ctypes.CDLL("libm.so.6")
_sig = {}


def libm(name, args):
    key = (name, tuple("i" if isinstance(a, int) else "d" for a in args))
    f = _sig.get(key)
    if f is None:
        try:
            f = getattr(_libm, name)
        except AttributeError:
            raise NoEval("libm " + name)
        f.restype = ctypes.c_long if name in ("lround", "llround", "lrint", "llrint") else ctypes.c_int if name == "ilogb" else ctypes.c_double
        f.argtypes = [ctypes.c_int if c == "i" else ctypes.c_double for c in key[1]]
        _sig[key] = f
    return f(*args)


PURE_C = {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "log", "log10", "log2",
          "log1p", "exp", "exp2", "expm1", "sqrt", "cbrt", "erf", "erfc", "fabs", "floor", "ceil", "trunc", "round", "rint",
          "nearbyint", "pow", "fmod", "atan2", "hypot", "remainder", "ldexp", "scalbn", "fmax", "fmin", "copysign", "nextafter",
          "lround", "llround", "ilogb", "lrint", "llrint"}


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return struct.pack("<d", a) == struct.pack("<d", b)
    return a == b


class IEEE:
    def __init__(self, env):
        self.env, self.memo, self.rmemo = env, {}, {}

    def num(self, t):
        if t.id not in self.memo:
            self.memo[t.id] = self._num(t)
        return self.memo[t.id]

    def _num(self, t):
        op = t.op
        if op == "cf":
            return float(t.k)
        if op == "ci":
            return t.k
        if op in ("true", "false"):
            return op == "true"
        if op == "ite":
            return self.num(t.a[1] if self.num(t.a[0]) else t.a[2])
        if op in ("and", "or", "not", "xor") and t.k is None:
            if op == "and":
                return self.num(t.a[0]) and self.num(t.a[1])
            if op == "or":
                return self.num(t.a[0]) or self.num(t.a[1])
            if op == "not":
                return not self.num(t.a[0])
            return self.num(t.a[0]) != self.num(t.a[1])
        r = self.env(t)
        if r is not None:
            return r
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = float(self.num(t.a[0])), float(self.num(t.a[1]))
            if op == "fadd":
                return a + b
            if op == "fsub":
                return a - b
            if op == "fmul":
                return a * b
            if b == 0:
                if a == 0 or a != a or b != b:
                    return math.nan
                return math.copysign(math.inf, a) * math.copysign(1.0, b)
            return a / b
        if op == "fneg":
            return -self.num(t.a[0])
        if op == "fcmp":
            a, b = self.num(t.a[0]), self.num(t.a[1])
            un = a != a or b != b
            p = t.k
            if p in ("ord", "uno"):
                return un == (p == "uno")
            if un:
                return p[0] == "u"
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p[1:]]
        if op == "icmp":
            a, b = self.int(t.a[0]), self.int(t.a[1])
            if t.k[0] == "u":
                a, b = a & (2 ** 64 - 1), b & (2 ** 64 - 1)
            return {"eq": a == b, "ne": a != b, "slt": a < b, "ult": a < b, "sgt": a > b, "ugt": a > b,
                    "sle": a <= b, "ule": a <= b, "sge": a >= b, "uge": a >= b}[t.k]
        if op == "fpext":
            return self.num(t.a[0])
        if op == "fptrunc":
            try:
                return struct.unpack("<f", struct.pack("<f", self.num(t.a[0])))[0]
            except OverflowError:
                return math.copysign(math.inf, self.num(t.a[0]))
        if op in ("sitofp", "uitofp"):
            return float(self.int(t.a[0]))
        if op in ("fptosi", "fptoui"):
            x = self.num(t.a[0])
            if x != x or math.isinf(x) or abs(x) > 2 ** 62:
                raise NoEval("conversion out of range")
            return wrap(int(x), int(t.k[1][1:]))
        if op in ("zext", "sext", "trunc"):
            v = self.num(t.a[0])
            if isinstance(v, float):
                v = self.int(t.a[0])
            if isinstance(v, bool):
                return (1 if v else 0) if op == "zext" else (-1 if v else 0)
            sw, dw = int(t.k[0][1:]), int(t.k[1][1:])
            if op == "zext":
                return v & ((1 << sw) - 1)
            if op == "trunc":
                return wrap(v, dw) if dw > 1 else bool(v & 1)
            return v
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor") and t.k:
            a, b = self.int(t.a[0]), self.int(t.a[1])
            w = int(t.k[1:])
            M = (1 << w) - 1
            return wrap({"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "shl": lambda: a << (b & 63),
                         "lshr": lambda: (a & M) >> (b & 63), "ashr": lambda: a >> (b & 63), "and": lambda: a & b,
                         "or": lambda: a | b, "xor": lambda: a ^ b}[op](), w)
        if op == "bitcast":
            x = self.num(t.a[0])
            if isinstance(x, float):
                return struct.unpack("<q", struct.pack("<d", x))[0]
            return struct.unpack("<d", struct.pack("<q", x))[0]
        if op == "call":
            n = canon_fn(t.k)
            if n == "is_fpclass":
                x, m = self.num(t.a[0]), self.int(t.a[1])
                neg = math.copysign(1.0, x) < 0
                if x != x:
                    c = 2
                elif math.isinf(x):
                    c = 4 if neg else 0x200
                elif x == 0:
                    c = 0x20 if neg else 0x40
                elif abs(x) < 2.2250738585072014e-308:
                    c = 0x10 if neg else 0x80
                else:
                    c = 8 if neg else 0x100
                return bool(c & m)
            if n in PURE_C and t.k == n:
                return libm(n, [self.num(a) for a in t.a])
            if n in ("maxnum", "minnum"):
                return libm("fmax" if n == "maxnum" else "fmin", [self.num(a) for a in t.a])
            if n == "modf":
                x = self.num(t.a[0])
                return math.modf(x)[0]
            if n == "remquo":
                return libm("remainder", [self.num(a) for a in t.a])
            if n == "frexp":
                return math.frexp(self.num(t.a[0]))[0]
        raise NoEval("%s %s" % (op, t.k))

    def int(self, t):
        v = self.num(t)
        if isinstance(v, float):
            return struct.unpack("<q", struct.pack("<d", v))[0]
        return int(v)

    def resolve(self, t):
        if t.id in self.rmemo:
            return self.rmemo[t.id]
        if t.op == "ite":
            r = self.resolve(t.a[1] if self.num(t.a[0]) else t.a[2])
        elif t.op in ("fcmp", "icmp", "not") or (t.op in ("and", "or", "xor") and t.k is None):
            r = TRUE if self.num(t) else FALSE
        elif not t.a or t.op in ("mem", "ptr"):
            r = t
        else:
            r = mk(t.op, tuple(self.resolve(x) for x in t.a), t.k)
        self.rmemo[t.id] = r
        return r


def rename(t, f, memo=None):
    """rebuild t with leaves replaced by f (None: keep)"""
    memo = {} if memo is None else memo
    if t.id in memo:
        return memo[t.id]
    r = f(t)
    if r is None:
        if not t.a or t.op in ("ptr",):
            r = t
        else:
            args = tuple(rename(x, f, memo) if isinstance(x, T) else x for x in t.a)
            if t.op in ("add", "mul", "and", "or", "xor") and t.k and args[0].id > args[1].id:
                args = (args[1], args[0])
            r = fcmp(t.k, *args) if t.op == "fcmp" else mk(t.op, args, t.k)
    memo[t.id] = r
    return r
