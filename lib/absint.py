"""Abstract interpretation of the LLVM IR of a driver together with the library code it reaches.

Abstract domain
  * memory: one abstract object per allocation, exact bounds, lifetime and initialisation of every byte;
    an address is (object, offset), objects are never reused, so dangling and out-of-bounds accesses are seen;
  * integers, pointers, booleans: constants;
  * floating-point data: polynomials with rational coefficients over symbols (and over uninterpreted
    applications such as 1/x or sin x).  Rounding is abstracted away, so reassociation is equality;
  * exceptions: the C++ type thrown and the objects it unwinds through.
The functions are translated once into Python transfer functions, block by block.
"""
import math, re, struct, sys, traceback
from fractions import Fraction
from common import Broken

SH = 40
OM = (1 << SH) - 1
NOFF = 1 << 39


class Viol(Exception):
    """the analysed code does something no execution may do"""

    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind, self.msg, self.stack = kind, msg, []


class Unsupported(Exception):
    pass


class CxxThrow(Exception):
    def __init__(self, obj, ti):
        Exception.__init__(self, "C++ exception")
        self.obj, self.ti = obj, ti


class _Undef:
    """an indeterminate value; it may be copied but not decide anything"""

    def _me(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = _me
    __xor__ = __rxor__ = __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = __floordiv__ = __rfloordiv__ = _me
    __mod__ = __rmod__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __neg__ = __invert__ = _me
    __hash__ = object.__hash__

    def __bool__(self):
        raise Viol("uninit", "a branch depends on an uninitialised value")

    def __index__(self):
        raise Viol("uninit", "an uninitialised value is used as an address or count")

    def __repr__(self):
        return "undef"


UNDEF = _Undef()


# ------------------------------------------------------------------ polynomials

class Atoms:
    def __init__(self):
        self.ids, self.names, self.w = {}, [], []

    def get(self, key, w):
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.names)
            self.names.append(key)
            self.w.append(w)
        return i


ATOMS = Atoms()


class P:
    __slots__ = ("t", "w", "_k")

    def __init__(self, t, w):
        self.t, self.w, self._k = t, w, None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __add__(a, b):
        if len(a.t) < len(b.t):
            a, b = b, a
        if not b.t:
            return a
        t = dict(a.t)
        for m, c in b.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            elif special(m):
                return NAN   # the difference of infinities
            else:
                del t[m]
        return P(t, a.w + b.w)

    def __neg__(a):
        return P({m: -c for m, c in a.t.items()}, -a.w)

    def __sub__(a, b):
        return a + (-b)

    def __mul__(a, b):
        if not a.t or not b.t:
            return NAN if any(special(m) for x in (a, b) for m in x.t) else ZERO
        t = {}
        for m, c in a.t.items():
            for n, d in b.t.items():
                k = tuple(sorted(m + n)) if m and n else (m or n)
                e = t.get(k, 0) + c * d
                if e:
                    t[k] = e
                else:
                    t.pop(k, None)
        if len(t) > 4000:
            raise Unsupported("value too large")
        return P(t, a.w * b.w)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0]))[:8]:
            f = [] if (c == 1 and m) else [str(c) if c.denominator < 1000 else "%.17g" % float(c)]
            f += [atomstr(i) for i in m]
            out.append("*".join(f))
        return " + ".join(out) + (" + ..." if len(self.t) > 8 else "")


def atomstr(i):
    k = ATOMS.names[i]
    if isinstance(k, str):
        return k
    return "%s(%s)" % (k[0], ", ".join(repr(P(dict(x), 0)) if isinstance(x, tuple) else str(x) for x in k[1:]))


ZERO = P({}, 0.0)
SPECIAL = set()   # atoms for infinity and NaN


def special(m):
    return bool(SPECIAL) and not SPECIAL.isdisjoint(m)


def num(x):
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            if x == -math.inf:
                return -num(math.inf)
            i = ATOMS.get(("special", str(x)), x)
            SPECIAL.add(i)
            return P({(i,): Fraction(1)}, x)
        f = Fraction(x)
    else:
        f = Fraction(x)
    return P({(): f}, float(f)) if f else ZERO


ONE = num(1)
NAN = num(math.nan)
_consts = {}


def fconst(s):
    v = _consts.get(s)
    if v is None:
        v = _consts[s] = num(float.fromhex(s) if "x" in s else float(s))
    return v


def sym(name, w):
    i = ATOMS.get(name, w)
    if ATOMS.w[i] != w:
        ATOMS.w[i] = w
    return P({(i,): Fraction(1)}, w)


def apply(fn, *args):
    """uninterpreted application with a representative value"""
    try:
        w = WIT[fn](*[a.w if isinstance(a, P) else a for a in args])
    except (ValueError, OverflowError, ZeroDivisionError):
        w = math.nan
    k = (fn,) + tuple(a.key() if isinstance(a, P) else a for a in args)
    i = ATOMS.get(k, w)
    return P({(i,): Fraction(1)}, w)


WIT = {"inv": lambda x: 1.0 / x, "pow": lambda a, b: math.pow(a, b), "fabs": abs, "fmod": math.fmod, "atan2": math.atan2,
       "hypot": math.hypot, "copysign": math.copysign, "fmin": min, "fmax": max, "remainder": math.remainder, "round": round,
       "trunc": math.trunc, "ldexp": lambda a, b: math.ldexp(a, b), "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
       "rsqrt": lambda x: x ** -0.5}
for _f in "sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp log log10 log2 exp2 expm1 log1p sqrt erf erfc floor ceil".split():
    if hasattr(math, _f):
        WIT[_f] = getattr(math, _f)


def fdiv(a, b):
    c = b.const()
    if c is not None and c != 0:
        return P({m: x / c for m, x in a.t.items()}, a.w / float(c))
    if not a.t and c is None:
        return ZERO
    if c is not None:
        return num(math.nan) if a.const() == 0 else num(math.copysign(math.inf, a.w))
    if a.t == b.t:
        return ONE
    if len(b.t) == 1:
        # inverse of a monomial is the product of inverses
        (m, co), = b.t.items()
        r = P({k: x / co for k, x in a.t.items()}, a.w / float(co))
        for i in m:
            n = ATOMS.names[i]
            r = r * (P(dict(n[1]), 1 / ATOMS.w[i]) if isinstance(n, tuple) and n[0] == "inv" else apply("inv", P({(i,): Fraction(1)}, ATOMS.w[i])))
        return cancel(r)
    return a * apply("inv", b)


def cancel(p):
    """x * inv(x) -> 1"""
    inv = {}
    for m in p.t:
        for i in m:
            n = ATOMS.names[i]
            if isinstance(n, tuple) and n[0] == "inv" and len(n[1]) == 1 and len(n[1][0][0]) == 1 and n[1][0][1] == 1:
                inv[i] = n[1][0][0][0]
    if not inv:
        return p
    t = {}
    for m, c in p.t.items():
        l = list(m)
        for i, x in inv.items():
            while i in l and x in l:
                l.remove(i)
                l.remove(x)
        k = tuple(l)
        t[k] = t.get(k, 0) + c
    return P({k: c for k, c in t.items() if c}, p.w)


def fbin(op, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        r = a * b
        return cancel(r)
    if op == "/":
        return fdiv(a, b)
    return apply("fmod", a, b)


def fneg(a):
    return a if a is UNDEF else -a


def fma(a, b, c):
    if a is UNDEF or b is UNDEF or c is UNDEF:
        return UNDEF
    return cancel(a * b) + c


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


# ------------------------------------------------------------------ memory

class Region:
    __slots__ = ("id", "size", "kind", "name", "live", "cells", "fills", "const")

    def __init__(self, id, size, kind, name):
        self.id, self.size, self.kind, self.name, self.live = id, size, kind, name, True
        self.cells, self.fills, self.const = {}, [], False

    def clone(self):
        r = Region(self.id, self.size, self.kind, self.name)
        r.live, r.cells, r.fills, r.const = self.live, dict(self.cells), list(self.fills), self.const
        return r

    def what(self):
        return {"heap": "heap object", "aligned": "chunk", "stack": "local", "global": "global", "exc": "exception object",
                "func": "function"}.get(self.kind, self.kind) + (" " + self.name if self.name else "") + " of %d bytes" % self.size


def tobytes(v, n):
    """little-endian bytes of a scalar cell, or None if it has no concrete bytes"""
    if isinstance(v, P):
        c = v.const()
        if c is None:
            return None
        return struct.pack("<d" if n == 8 else "<f", float(c))
    if v is UNDEF:
        return None
    v = int(v)
    return (v & ((1 << (8 * n)) - 1)).to_bytes(n, "little")


def i2f(v, n):
    if v is UNDEF:
        return v
    b = (v & ((1 << (8 * n)) - 1)).to_bytes(n, "little")
    return num(struct.unpack("<d" if n == 8 else "<f", b)[0])


def f2i(v, n):
    if isinstance(v, P):
        b = tobytes(v, n)
        return v if b is None else int.from_bytes(b, "little")
    return v


STDBASE = {
    "_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt12out_of_range": "_ZTISt11logic_error",
    "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt9bad_alloc": "_ZTISt9exception",
    "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc", "_ZTISt17bad_function_call": "_ZTISt9exception", "_ZTISt8bad_cast": "_ZTISt9exception",
}
THROWERS = {"_ZSt17__throw_bad_allocv": "_ZTISt9bad_alloc", "_ZSt28__throw_bad_array_new_lengthv": "_ZTISt20bad_array_new_length",
            "_ZSt20__throw_length_errorPKc": "_ZTISt12length_error", "_ZSt20__throw_out_of_rangePKc": "_ZTISt12out_of_range",
            "_ZSt24__throw_out_of_range_fmtPKcz": "_ZTISt12out_of_range", "_ZSt19__throw_logic_errorPKc": "_ZTISt11logic_error",
            "_ZSt25__throw_bad_function_callv": "_ZTISt17bad_function_call", "_ZSt24__throw_invalid_argumentPKc": "_ZTISt16invalid_argument"}


class Machine:
    def __init__(self, mod):
        self.mod = mod
        self.regs = {}
        self.next = 1
        self.sp = []
        self.steps = 0
        self.calls = 0
        self.limit = 4000000
        self.thread = 0
        self.hooks = {}
        self.throws = {}
        self.failalloc = None     # set of allocation ordinals that fail
        self.allocs = 0
        self.faddr, self.addrf, self.gaddr, self.tls = {}, {}, {}, {}
        self.addrg = {}
        self.funcs = {}
        self.cov = set()
        self.datacmp = {}
        for f in mod.funcs:
            self.fnaddr(f)
        for g in mod.globals.values():
            if not g.get("tls"):
                self.mkglobal(g)
        self.G = mod.bind(self)

    # ---- objects
    def alloc(self, size, kind, name=""):
        i = self.next
        self.next += 1
        self.regs[i] = Region(i, int(size), kind, name)
        return i << SH

    def fnaddr(self, name):
        if name not in self.faddr:
            a = self.alloc(0, "func", name)
            self.faddr[name] = a
            self.addrf[a] = name
        return self.faddr[name]

    def mkglobal(self, g):
        a = self.alloc(g.get("size") or 1 << 20, "global", g["dname"])
        self.gaddr[g["name"]] = a
        self.addrg[a] = g["name"]
        self.init(a, g)
        return a

    def init(self, a, g):
        r = self.regs[a >> SH]
        if g.get("decl"):
            return
        for off, size, op, ty in g.get("init") or []:
            if op[0] == "zero":
                r.fills.append((off, off + size, 0))
            elif op[0] != "undef":
                r.cells[off] = (size, ("lazy", op))

    def gaddress(self, name):
        g = self.mod.globals.get(name)
        if g is None:
            return self.fnaddr(name)
        if g.get("tls"):
            k = (name, self.thread)
            if k not in self.tls:
                self.tls[k] = self.alloc(g.get("size") or 8, "global", "%s (thread %d)" % (g["dname"], self.thread))
                self.init(self.tls[k], g)
            return self.tls[k]
        return self.gaddr[name]

    def const(self, op):
        k = op[0]
        if k == "c":
            return op[1] & ((1 << op[2]) - 1)
        if k == "cbig":
            return int(op[1]) & ((1 << op[2]) - 1)
        if k == "f":
            return fconst(op[1])
        if k in ("null", "zero"):
            return 0
        if k == "undef":
            return UNDEF
        if k == "g":
            return self.gaddress(op[1])
        if k == "gep":
            return (self.const(op[1]) + op[2]) & 0xffffffffffffffff
        if k == "agg":
            return [self.const(x) for x in op[1]]
        raise Unsupported("constant %s" % (op,))

    def bad(self, a, n, what):
        r = self.regs.get(a >> SH)
        o = a & OM
        if a < (1 << SH) and a >= 0:
            raise Viol("null", "%s through a null pointer" % what)
        if r is not None and not r.live:
            raise Viol("dangling", "%s of %d bytes at offset %d of a released %s" % (what, n, o, r.what()))
        if o > NOFF:
            r = self.regs.get((a >> SH) + 1)
            o -= 1 << SH
            if r is None:
                raise Viol("bounds", "%s outside every object" % what)
        if r is None:
            raise Viol("bounds", "%s outside every object" % what)
        raise Viol("bounds", "%s of %d bytes at offset %d of a %s" % (what, n, o, r.what()))

    def load(self, a, n):
        try:
            r = self.regs.get(a >> SH)
            o = a & OM
        except TypeError:
            raise Unsupported("address %r" % (a,))
        if a is UNDEF:
            raise Viol("uninit", "read through an uninitialised pointer")
        if r is None or not r.live or o + n > r.size:
            self.bad(a, n, "read")
        c = r.cells.get(o)
        if c is not None and c[0] == n:
            v = c[1]
            if v.__class__ is tuple and v and v[0] == "lazy":
                v = self.const(v[1])
                r.cells[o] = (n, v)
            return v
        return self.slow(r, o, n)

    def fillat(self, r, o):
        for s, e, b in reversed(r.fills):
            if s <= o < e:
                return b
        return None

    def slow(self, r, o, n):
        out = bytearray()
        k = o
        while k < o + n:
            for d in range(0, 16):
                c = r.cells.get(k - d)
                if c is not None and k - d + c[0] > k:
                    break
            else:
                c = None
            if c is None:
                b = self.fillat(r, k)
                if b is None:
                    return UNDEF
                out.append(b)
                k += 1
                continue
            v = c[1]
            if v.__class__ is tuple and v and v[0] == "lazy":
                v = self.const(v[1])
            bs = tobytes(v, c[0])
            if bs is None:
                if v is UNDEF:
                    return UNDEF
                if d == 0 and c[0] > n:
                    raise Unsupported("part of a floating-point value")
                raise Unsupported("bytes of a floating-point value")
            take = bs[d:d + (o + n - k)]
            out += take
            k += len(take)
        return int.from_bytes(out, "little")

    def store(self, a, n, v):
        if a is UNDEF:
            raise Viol("uninit", "write through an uninitialised pointer")
        r = self.regs.get(a >> SH)
        o = a & OM
        if r is None or not r.live or o + n > r.size:
            self.bad(a, n, "write")
        if r.const:
            raise Viol("const", "write to a constant " + r.what())
        c = r.cells.get(o)
        if c is None or c[0] != n:
            self.clear(r, o, n)
        r.cells[o] = (n, v)

    def clear(self, r, o, n):
        """drop the cells overlapping [o, o+n), keeping the bytes outside it"""
        cells = r.cells
        if n > 4 * len(cells) + 64:
            hit = [k for k, c in cells.items() if k < o + n and k + c[0] > o]
        else:
            hit = [k for k in range(o - 15, o + n) if k in cells and k + cells[k][0] > o]
        for k in hit:
            c = cells.pop(k)
            if k < o or k + c[0] > o + n:
                v = c[1]
                if v.__class__ is tuple and v and v[0] == "lazy":
                    v = self.const(v[1])
                bs = tobytes(v, c[0])
                for j in range(c[0]):
                    if not o <= k + j < o + n:
                        cells[k + j] = (1, UNDEF if bs is None else bs[j])

    def memcpy(self, d, s, n):
        if n is UNDEF or d is UNDEF or s is UNDEF:
            raise Viol("uninit", "copy with an uninitialised pointer or length")
        if n == 0:
            return
        rs, rd = self.regs.get(s >> SH), self.regs.get(d >> SH)
        so, do = s & OM, d & OM
        if rs is None or not rs.live or so + n > rs.size:
            self.bad(s, n, "read")
        if rd is None or not rd.live or do + n > rd.size:
            self.bad(d, n, "write")
        if n <= 256:
            src = [(k, rs.cells[k]) for k in range(so - 15, so + n) if k in rs.cells and k + rs.cells[k][0] > so]
        else:
            src = [(k, c) for k, c in rs.cells.items() if k < so + n and k + c[0] > so]
        fills = [(max(a, so), min(b, so + n), v) for a, b, v in rs.fills if a < so + n and b > so]
        self.clear(rd, do, n)
        # the copied range starts out undefined
        self.cutfills(rd, do, n)
        for a, b, v in fills:
            rd.fills.append((a - so + do, b - so + do, v))
        for k, c in src:
            if k >= so and k + c[0] <= so + n:
                rd.cells[k - so + do] = c
            else:
                v = c[1]
                if v.__class__ is tuple and v and v[0] == "lazy":
                    v = self.const(v[1])
                bs = tobytes(v, c[0])
                for j in range(c[0]):
                    if so <= k + j < so + n:
                        rd.cells[k + j - so + do] = (1, UNDEF if bs is None else bs[j])

    def cutfills(self, r, o, n):
        if not r.fills:
            return
        out = []
        for a, b, v in r.fills:
            if b <= o or a >= o + n:
                out.append((a, b, v))
            else:
                if a < o:
                    out.append((a, o, v))
                if b > o + n:
                    out.append((o + n, b, v))
        r.fills = out

    def memset(self, d, v, n):
        if n is UNDEF or d is UNDEF:
            raise Viol("uninit", "fill with an uninitialised pointer or length")
        if n == 0:
            return
        r, o = self.regs.get(d >> SH), d & OM
        if r is None or not r.live or o + n > r.size:
            self.bad(d, n, "write")
        self.clear(r, o, n)
        self.cutfills(r, o, n)
        if v is not UNDEF:
            r.fills.append((o, o + n, v & 255))

    def memcmp(self, a, b, n):
        for k in range(n):
            x, y = self.load(a + k, 1), self.load(b + k, 1)
            if x != y:
                return 1 if x > y else 0xffffffff
        return 0

    def free(self, p, kinds):
        if p is UNDEF:
            raise Viol("uninit", "an uninitialised pointer is released")
        if p == 0:
            return
        r = self.regs.get(p >> SH)
        if r is None or (p & OM) != 0 or r.kind not in ("heap", "aligned", "exc"):
            raise Viol("free", "a pointer that was not allocated is released")
        if not r.live:
            raise Viol("free", "a %s is released twice" % r.what())
        if r.kind not in kinds:
            raise Viol("free", "memory from %s is released with the other deallocation function" % r.kind)
        r.live = False
        r.cells, r.fills = {}, []

    def frame(self):
        self.sp.append([])
        if len(self.sp) > 400:
            raise Viol("depth", "unbounded recursion")

    def alloca(self, n, name):
        a = self.alloc(n, "stack", name)
        self.sp[-1].append(a >> SH)
        return a

    def popframe(self):
        for i in self.sp.pop():
            r = self.regs.pop(i)
            r.live = False

    def newheap(self, n, kind="heap"):
        if n is UNDEF:
            raise Viol("uninit", "an uninitialised size is allocated")
        self.allocs += 1
        if n > (1 << 38):
            raise Unsupported("allocation of %d bytes" % n)
        return self.alloc(n, kind)

    def leaks(self):
        return [r for r in self.regs.values() if r.live and r.kind in ("heap", "aligned")]

    # ---- exceptions
    def throw(self, ti, obj=None):
        if obj is None:
            obj = self.alloc(64, "exc", "")
        e = CxxThrow(obj, ti)
        self.throws[obj] = e
        raise e

    def tiname(self, a):
        return self.addrg.get(a) or self.addrf.get(a) or "?"

    def bases(self, n):
        seen = []
        while n and n not in seen:
            seen.append(n)
            g = self.mod.globals.get(n)
            b = None
            if g and g.get("init"):
                for off, size, op, ty in g["init"]:
                    if off == 16 and op[0] == "g":
                        b = op[1]
            n = b or STDBASE.get(n)
        return seen

    def match(self, e, clauses, cleanup):
        names = self.bases(self.tiname(e.ti))
        for kind, op in clauses:
            if kind != "catch":
                raise Unsupported("exception filter")
            if op[0] == "null":
                return self.tid(0)
            if op[0] == "g" and op[1] in names:
                return self.tid(self.gaddress(op[1]))
        return 0 if cleanup else None

    def tid(self, a):
        return 1 if a == 0 else (a >> SH) + 1

    # ---- decisions on data
    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if pred == "true":
            return True
        if pred == "false":
            return False
        x, y = a.w, b.w
        if a.t == b.t and not x != x:
            x = y = 0.0
        elif a.const() is None or b.const() is None:
            pass
        un = x != x or y != y
        if pred == "ord":
            return not un
        if pred == "uno":
            return un
        if un:
            return pred[0] == "u"
        p = pred[1:]
        return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p]

    # ---- calls
    def call(self, name, *args):
        """transfer function of a driver entry; ('ok', value) or ('throw', type name)"""
        f = self.G.get("f_" + str(self.mod.index.get(name, "?")))
        if f is None:
            raise Broken("no function %s in the driver" % name)
        self.calls += 1
        depth = len(self.sp)
        lim = sys.getrecursionlimit()
        if not depth:
            self.steps = 0
        try:
            return ("ok", f(*args))
        except CxxThrow as e:
            while len(self.sp) > depth:
                self.popframe()
            return ("throw", self.tiname(e.ti))
        except (Viol, Unsupported) as e:
            if not getattr(e, "where", None):
                e.where = self.mod.where(e.__traceback__)
            raise
        except RecursionError:
            raise Unsupported("recursion")
        except (TypeError, AttributeError, KeyError, ValueError, ZeroDivisionError) as e:
            u = Unsupported("%s: %s" % (type(e).__name__, e))
            u.where = self.mod.where(e.__traceback__)
            raise u

    def indirect(self, a, *args):
        n = self.addrf.get(a)
        if n is None:
            raise Viol("call", "call through a pointer that is not a function")
        i = self.mod.index.get(n)
        if i is not None:
            return self.G["f_%d" % i](*args)
        return self.extern(n)(*args)

    def extern(self, n):
        h = self.hooks.get(n)
        if h:
            return h
        f = self.mod.externs.get(n)
        if f is None:
            f = resolve_extern(n)
            if f is None:
                raise Unsupported("call to %s" % n)
            self.mod.externs[n] = f
        return lambda *a: f(self, *a)


# ------------------------------------------------------------------ the outside world

def _ml(fn):
    def f(M, *a):
        if any(x is UNDEF for x in a):
            return UNDEF
        if all(isinstance(x, P) and x.const() is not None for x in a) and fn in ("floor", "ceil", "trunc", "sqrt", "fabs", "round"):
            return num(float(WIT[fn](*[x.w for x in a])))
        if fn == "fabs":
            return a[0] if a[0].w >= 0 else -a[0]
        if fn in ("fmax", "fmin"):
            x, y = a
            return x if (x.w >= y.w) == (fn == "fmax") else y
        if fn == "rsqrt":
            pass
        if fn == "sqrt" and isinstance(a[0], P) and not a[0].t:
            return ZERO
        if fn == "pow":
            c = a[1].const()
            if c is not None and c.denominator == 1 and 0 <= c <= 8:
                r = ONE
                for _ in range(int(c)):
                    r = r * a[0]
                return r
        return apply(fn, *[x if isinstance(x, P) else (x - (1 << 32) if x >> 31 else x) for x in a])
    return f


def hook(M, node, pos):
    prev = M.load(pos + 8, 8)
    M.store(node, 8, pos)
    M.store(node + 8, 8, prev)
    M.store(prev, 8, node)
    M.store(pos + 8, 8, node)


def unhook(M, node):
    n, p = M.load(node, 8), M.load(node + 8, 8)
    M.store(p, 8, n)
    M.store(n + 8, 8, p)


def transfer(M, this, first, last):
    if this == last:
        return
    L = lambda a, o: M.load(a + o, 8)
    S = lambda a, o, v: M.store(a + o, 8, v)
    S(L(last, 8), 0, this)
    S(L(first, 8), 0, last)
    S(L(this, 8), 0, first)
    tmp = L(this, 8)
    S(this, 8, L(last, 8))
    S(last, 8, L(first, 8))
    S(first, 8, tmp)


def lswap(M, x, y):
    L = lambda a, o: M.load(a + o, 8)
    S = lambda a, o, v: M.store(a + o, 8, v)
    ex, ey = L(x, 0) == x, L(y, 0) == y
    xn, xp, yn, yp = L(x, 0), L(x, 8), L(y, 0), L(y, 8)

    def put(h, n, p, e, old):
        if e:
            S(h, 0, h), S(h, 8, h)
        else:
            S(h, 0, n), S(h, 8, p), S(n, 8, h), S(p, 0, h)
    put(x, yn, yp, ey, y)
    put(y, xn, xp, ex, x)


def throw_alloc(M, n):
    M.allocs += 1
    if M.failalloc and M.allocs in M.failalloc:
        M.throw(M.fnaddr("_ZTISt9bad_alloc"))
    M.allocs -= 1
    return M.newheap(n)


def aligned(M, al, n):
    if M.failalloc and M.allocs + 1 in M.failalloc:
        M.allocs += 1
        return 0
    return M.newheap(n, "aligned")


def cxa_throw(M, obj, ti, dtor):
    e = CxxThrow(obj, ti)
    M.throws[obj] = e
    raise e


def resume(M, v):
    raise M.throws[v[0]]


def rethrow(M):
    if not M.throws:
        raise Viol("terminate", "rethrow without a current exception")
    raise list(M.throws.values())[-1]


def endcatch(M):
    if M.throws:
        o = list(M.throws)[-1]
        # objects in flight can be caught again through rethrow; keep only the count bounded
        if len(M.throws) > 64:
            del M.throws[next(iter(M.throws))]


def term(M, *a):
    raise Viol("terminate", "std::terminate is reached: an exception leaves a noexcept function or a destructor")


def assertfail(M, *a):
    s = ""
    try:
        p = a[0]
        while True:
            c = M.load(p, 1)
            if not c:
                break
            s += chr(c)
            p += 1
    except Exception:
        pass
    raise Viol("assert", "an assertion of the library fails: " + s)


def strlen(M, p):
    n = 0
    while M.load(p + n, 1):
        n += 1
    return n


def i32s(x):
    return x - (1 << 32) if x >> 31 else x


EXT = {
    "_Znwm": throw_alloc, "_Znam": throw_alloc, "_ZnwmSt11align_val_t": lambda M, n, a: throw_alloc(M, n),
    "_ZnwmRKSt9nothrow_t": lambda M, n, t: M.newheap(n),
    "_ZdlPv": lambda M, p: M.free(p, ("heap",)), "_ZdlPvm": lambda M, p, n: M.free(p, ("heap",)), "_ZdaPv": lambda M, p: M.free(p, ("heap",)),
    "_ZdlPvSt11align_val_t": lambda M, p, a: M.free(p, ("heap",)), "_ZdlPvmSt11align_val_t": lambda M, p, n, a: M.free(p, ("heap",)),
    "aligned_alloc": aligned, "malloc": lambda M, n: M.newheap(n, "aligned"), "free": lambda M, p: M.free(p, ("aligned",)),
    "_ZNSt8__detail15_List_node_base7_M_hookEPS0_": hook, "_ZNSt8__detail15_List_node_base9_M_unhookEv": unhook,
    "_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_": transfer, "_ZNSt8__detail15_List_node_base4swapERS0_S1_": lswap,
    "__cxa_allocate_exception": lambda M, n: M.alloc(n, "exc"), "__cxa_free_exception": lambda M, p: M.free(p, ("exc",)),
    "__cxa_throw": cxa_throw, "__cxa_begin_catch": lambda M, p: p, "__cxa_end_catch": endcatch, "__cxa_rethrow": rethrow,
    "__cxa_get_exception_ptr": lambda M, p: p,
    "_ZSt9terminatev": term, "abort": term, "__cxa_pure_virtual": lambda M, *a: (_ for _ in ()).throw(Viol("call", "a pure virtual function is called")),
    "__assert_fail": assertfail, "__cxa_guard_acquire": lambda M, p: 1 if M.load(p, 1) == 0 else 0,
    "__cxa_guard_release": lambda M, p: M.store(p, 1, 1), "__cxa_guard_abort": lambda M, p: None, "__cxa_atexit": lambda M, *a: 0,
    "__cxa_thread_atexit": lambda M, *a: 0, "strlen": strlen, "memcmp": lambda M, a, b, n: M.memcmp(a, b, n),
    "memcpy": lambda M, d, s, n: (M.memcpy(d, s, n), d)[1], "memmove": lambda M, d, s, n: (M.memcpy(d, s, n), d)[1],
    "memset": lambda M, d, v, n: (M.memset(d, v, n), d)[1], "__dso_handle": None,
    "ldexp": _ml("ldexp"), "ldexpf": _ml("ldexp"), "fma": lambda M, a, b, c: fma(a, b, c), "fmaf": lambda M, a, b, c: fma(a, b, c),
    "_ZSt21__glibcxx_assert_failPKciS0_S0_": assertfail,
    "_ZNSt8ios_base4InitC1Ev": lambda M, *a: None, "_ZNSt8ios_base4InitD1Ev": lambda M, *a: None,
}
for _n in "sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp log log10 log2 exp2 expm1 log1p sqrt cbrt erf erfc floor ceil trunc round pow fmod atan2 hypot fabs fmax fmin copysign remainder".split():
    EXT[_n] = EXT[_n + "f"] = _ml(_n)


def resolve_extern(n):
    if n in EXT:
        return EXT[n]
    if n in THROWERS:
        return lambda M, *a: M.throw(M.fnaddr(THROWERS[n]))
    # message texts are not modelled
    if re.match(r"_ZN[KO]?St(13runtime_error|11logic_error|12out_of_range|9exception|12length_error|16invalid_argument)", n):
        return lambda M, *a: a[0] if a else 0
    if re.match(r"_ZNK?St7__cxx1112basic_string|_ZNSsC|_ZNSaIc|_ZNK?Ss", n):
        return strcall(n)
    m = re.match(r"llvm\.(\w+)\.", n + ".")
    return None


def strcall(n):
    def f(M, this=0, *a):
        # a string object: constructors make an empty one, the destructor has nothing to release
        if "_M_create" in n:
            return M.newheap(M.load(a[0], 8) + 1)
        if "C1E" in n or "C2E" in n:
            M.memset(this, 0, 32)
            M.store(this, 8, this + 16)
            return None
        return this
    return f


# ------------------------------------------------------------------ translation

CMPS = {"eq": "==", "ne": "!=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">=", "slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}
FPT = {"double": 8, "float": 4, "x86_fp80": 16}
SKIP = ("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.stacksave", "llvm.stackrestore",
        "llvm.prefetch")


def width(t):
    if t.startswith("i") and t[1:].isdigit():
        return int(t[1:])
    if t == "ptr":
        return 64
    return None


class Module:
    """the IR of one driver, translated"""

    def __init__(self, js):
        self.globals = {g["name"]: g for g in js["globals"]}
        self.funcs = {f["name"]: f for f in js["functions"]}
        self.index = {n: i for i, n in enumerate(self.funcs)}
        self.names = list(self.funcs)
        self.externs = {}
        self.code = {}
        self.lines = {}
        self.blocks = {n: len(f["blocks"]) for n, f in self.funcs.items()}

    def bind(self, M):
        env = {"M": M, "UNDEF": UNDEF, "Viol": Viol, "Unsupported": Unsupported, "CxxThrow": CxxThrow, "fbin": fbin, "fneg": fneg, "fma": fma,
               "num": num, "i2f": i2f, "f2i": f2i, "LD": M.load, "ST": M.store, "P": P, "K": [], "G": None, "fconst": fconst}
        G = Env(self, M, env)
        return G

    def translate(self, name):
        if name not in self.code:
            src, lines, consts = Gen(self, self.funcs[name]).run()
            fn = "<ir:%d>" % self.index[name]
            self.code[name] = (compile(src, fn, "exec"), consts)
            self.lines[fn] = (name, lines)
        return self.code[name]

    def where(self, tb):
        out = []
        while tb is not None:
            f = tb.tb_frame.f_code.co_filename
            if f in self.lines:
                name, lines = self.lines[f]
                loc = lines.get(tb.tb_lineno)
                d = self.funcs[name]["dname"]
                if loc:
                    for l in reversed(loc):
                        out.append((l[0], l[1], l[2]))
                else:
                    out.append(("?", 0, d))
            tb = tb.tb_next
        return out


class Env(dict):
    """translated functions, bound to one machine on first use"""

    def __init__(self, mod, M, env):
        self.mod, self.M = mod, M
        dict.__init__(self, env)

    def get(self, k, d=None):
        if k in self:
            return self[k]
        if k.startswith("f_") and k[2:].isdigit():
            return self.make(k)
        return d

    def __missing__(self, k):
        if k.startswith("f_"):
            return self.make(k)
        raise KeyError(k)

    def make(self, k):
        name = self.mod.names[int(k[2:])]
        code, consts = self.mod.translate(name)
        g = dict(self)
        g["K"] = [self.M.const(c) if not isinstance(c, str) else c for c in consts]
        g["F"] = self
        exec(code, g)
        self[k] = g["fn"]
        return g["fn"]


class Gen:
    def __init__(self, mod, f):
        self.mod, self.f = mod, f
        self.out, self.lines, self.consts, self.ck = [], {}, [], {}
        self.ty = {}
        for b in f["blocks"]:
            for i in b["insts"]:
                self.ty[i["id"]] = i["ty"]

    def emit(self, ind, s, loc=None):
        self.out.append(" " * ind + s)
        if loc:
            self.lines[len(self.out)] = loc

    def K(self, op):
        k = repr(op)
        if k not in self.ck:
            self.ck[k] = len(self.consts)
            self.consts.append(op)
        return "K[%d]" % self.ck[k]

    def v(self, op):
        k = op[0]
        if k == "i":
            return "v%d" % op[1]
        if k == "a":
            return "a%d" % op[1]
        if k == "c":
            return str(op[1] & ((1 << op[2]) - 1))
        if k in ("null",):
            return "0"
        if k == "undef":
            return "UNDEF"
        if k == "zero":
            t = op[1]
            return "0" if width(t) else self.K(["f", "0x0p+0", t]) if t in FPT else "0"
        if k == "g":
            g = self.mod.globals.get(op[1])
            if g is not None and g.get("tls"):
                return "M.gaddress(%r)" % op[1]
            return self.K(op)
        return self.K(op)

    def opty(self, op):
        if op[0] == "i":
            return self.ty.get(op[1])
        if op[0] == "a":
            return self.f["args"][op[1]][0]
        if op[0] in ("c", "cbig"):
            return "i%d" % op[2]
        if op[0] in ("f",):
            return op[2]
        if op[0] in ("undef", "zero"):
            return op[1]
        return "ptr"

    def sx(self, e, w):
        h = 1 << (w - 1)
        if re.fullmatch(r"\d+", e):
            x = int(e)
            return str(x - (1 << w) if x & h else x)
        return "((%s ^ %d) - %d)" % (e, h, h)

    def run(self):
        f = self.f
        args = ", ".join("a%d" % i for i in range(len(f["args"])))
        self.emit(0, "def fn(%s):" % args)
        allocas = [i for b in f["blocks"] for i in b["insts"] if i["op"] == "alloca"]
        ind = 1
        if allocas:
            self.emit(1, "M.frame()")
            self.emit(1, "try:")
            ind = 2
        self.emit(ind, "b = %d" % f["blocks"][0]["id"])
        self.emit(ind, "while True:")
        self.emit(ind + 1, "M.steps += 1")
        self.emit(ind + 1, "if M.steps > M.limit: raise Viol('loop', 'no end within the analysed number of steps')")
        self.byid = {b["id"]: b for b in f["blocks"]}
        self.tree(ind + 1, sorted(self.byid))
        if allocas:
            self.emit(1, "finally:")
            self.emit(2, "M.popframe()")
        return "\n".join(self.out) + "\n", self.lines, self.consts

    def tree(self, ind, ids):
        if len(ids) == 1:
            self.block(ind, self.byid[ids[0]])
            return
        m = len(ids) // 2
        self.emit(ind, "if b < %d:" % ids[m])
        self.tree(ind + 1, ids[:m])
        self.emit(ind, "else:")
        self.tree(ind + 1, ids[m:])

    def goto(self, ind, cur, tgt):
        """phi assignments of the edge, then the jump"""
        ph = []
        for i in self.byid[tgt]["insts"]:
            if i["op"] != "phi":
                break
            for o, b in i["ops"]:
                if b == cur:
                    ph.append(("v%d" % i["id"], self.v(o) if True else None))
                    break
        ph = [(a, b) for a, b in ph if a != b]
        if ph:
            self.emit(ind, "%s = %s" % (", ".join(a for a, _ in ph), ", ".join(b for _, b in ph)))
        self.emit(ind, "b = %d" % tgt)
        self.emit(ind, "continue")

    def block(self, ind, b):
        for i in b["insts"]:
            self.inst(ind, b["id"], i)

    def inst(self, ind, cur, i):
        op, ty, ops, loc = i["op"], i["ty"], i["ops"], i.get("loc") or None
        d = "v%d" % i["id"]
        e = lambda s: self.emit(ind, s, loc)
        if op == "phi":
            return
        w = width(ty)
        if op in ("add", "sub", "mul"):
            return e("%s = (%s %s %s) & %d" % (d, self.v(ops[0]), {"add": "+", "sub": "-", "mul": "*"}[op], self.v(ops[1]), (1 << w) - 1))
        if op in ("and", "or", "xor"):
            return e("%s = %s %s %s" % (d, self.v(ops[0]), {"and": "&", "or": "|", "xor": "^"}[op], self.v(ops[1])))
        if op == "shl":
            return e("%s = (%s << %s) & %d" % (d, self.v(ops[0]), self.v(ops[1]), (1 << w) - 1))
        if op == "lshr":
            return e("%s = %s >> %s" % (d, self.v(ops[0]), self.v(ops[1])))
        if op == "ashr":
            return e("%s = (%s >> %s) & %d" % (d, self.sx(self.v(ops[0]), w), self.v(ops[1]), (1 << w) - 1))
        if op in ("udiv", "urem"):
            e("if %s == 0: raise Viol('div', 'division by zero')" % self.v(ops[1]))
            return e("%s = %s %s %s" % (d, self.v(ops[0]), "//" if op == "udiv" else "%", self.v(ops[1])))
        if op in ("sdiv", "srem"):
            a, c = self.sx(self.v(ops[0]), w), self.sx(self.v(ops[1]), w)
            e("if %s == 0: raise Viol('div', 'division by zero')" % self.v(ops[1]))
            e("x_, y_ = %s, %s; q_ = abs(x_) // abs(y_); q_ = q_ if (x_ < 0) == (y_ < 0) else -q_" % (a, c))
            return e("%s = (%s) & %d" % (d, "q_" if op == "sdiv" else "x_ - q_ * y_", (1 << w) - 1))
        if op == "icmp":
            cw = width(i["cty"])
            if cw is None:
                return e("raise Unsupported('icmp on %s')" % i["cty"])
            a, c = self.v(ops[0]), self.v(ops[1])
            if i["pred"][0] == "s":
                a, c = self.sx(a, cw), self.sx(c, cw)
            return e("%s = %s %s %s" % (d, a, CMPS[i["pred"]], c))
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            return e("%s = fbin(%r, %s, %s)" % (d, {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/", "frem": "%"}[op], self.v(ops[0]), self.v(ops[1])))
        if op == "fneg":
            return e("%s = fneg(%s)" % (d, self.v(ops[0])))
        if op == "fcmp":
            return e("%s = M.fcmp(%r, %s, %s)" % (d, i["pred"], self.v(ops[0]), self.v(ops[1])))
        if op in ("zext", "ptrtoint", "inttoptr", "freeze", "fpext", "fptrunc", "addrspacecast"):
            a = self.v(ops[0])
            if op == "ptrtoint" and w != 64:
                a = "%s & %d" % (a, (1 << w) - 1)
            if op == "zext" and i["src"] == "i1":
                a = "%s + 0" % a
            return e("%s = %s" % (d, a))
        if op == "trunc":
            return e("%s = %s & %d" % (d, self.v(ops[0]), (1 << w) - 1))
        if op == "sext":
            sw = width(i["src"])
            return e("%s = %s & %d" % (d, self.sx(self.v(ops[0]), sw), (1 << w) - 1))
        if op == "bitcast":
            s = i["src"]
            if s in FPT and w:
                return e("%s = f2i(%s, %d)" % (d, self.v(ops[0]), FPT[s]))
            if ty in FPT and width(s):
                a = self.v(ops[0])
                return e("%s = %s if %s.__class__ is P else i2f(%s, %d)" % (d, a, a, a, FPT[ty]))
            if ty == s:
                return e("%s = %s" % (d, self.v(ops[0])))
            return e("raise Unsupported('bitcast %s to %s')" % (s, ty))
        if op in ("sitofp", "uitofp"):
            a = self.v(ops[0])
            return e("%s = num(int(%s))" % (d, self.sx(a, width(i["src"])) if op[0] == "s" and i["src"] != "i1" else a))
        if op in ("fptosi", "fptoui"):
            return e("%s = int(%s.w) & %d" % (d, self.v(ops[0]), (1 << w) - 1))
        if op == "select":
            return e("%s = %s if %s else %s" % (d, self.v(ops[1]), self.v(ops[0]), self.v(ops[2])))
        if op == "getelementptr":
            if "off" not in i:
                return e("raise Unsupported('gep')")
            s = self.v(ops[0])
            for x, sc in i.get("var") or []:
                xw = width(self.opty(x)) or 64
                xv = self.v(x)
                if xw < 64:
                    xv = self.sx(xv, xw)
                s += " + %s * %d" % (xv, sc) if sc != 1 else " + %s" % xv
            if i["off"]:
                s += " + %d" % i["off"]
            if s == self.v(ops[0]):
                return e("%s = %s" % (d, s))
            return e("%s = (%s) & 0xffffffffffffffff" % (d, s))
        if op == "load":
            a = self.v(ops[0])
            if ty in FPT:
                e("%s = LD(%s, %d)" % (d, a, i["lsz"]))
                return e("if %s.__class__ is int: %s = i2f(%s, %d)" % (d, d, d, i["lsz"]))
            if w is None:
                return e("raise Unsupported('load of %s')" % ty)
            if w == 1:
                return e("%s = LD(%s, 1) & 1" % (d, a))
            return e("%s = LD(%s, %d)" % (d, a, i["lsz"]))
        if op == "store":
            if i["sty"] not in FPT and width(i["sty"]) is None:
                if ops[0][0] in ("zero",):
                    return e("M.memset(%s, 0, %d)" % (self.v(ops[1]), i["ssz"]))
                return e("raise Unsupported('store of %s')" % i["sty"])
            return e("ST(%s, %d, %s)" % (self.v(ops[1]), i["ssz"], self.v(ops[0])))
        if op == "alloca":
            n = "%d" % i["asz"]
            if ops and ops[0] != ["c", 1, 32]:
                n = "%d * %s" % (i["asz"], self.v(ops[0]))
            return e("%s = M.alloca(%s, %r)" % (d, n, ""))
        if op == "extractvalue":
            return e("%s = %s%s" % (d, self.v(ops[0]), "".join("[%d]" % k for k in i["ix"])))
        if op == "insertvalue":
            a = self.v(ops[0])
            if len(i["ix"]) != 1:
                return e("raise Unsupported('insertvalue')")
            n = i["ix"][0]
            e("x_ = list(%s) if isinstance(%s, (list, tuple)) else [UNDEF] * 8" % (a, a))
            e("x_[%d] = %s" % (n, self.v(ops[1])))
            return e("%s = tuple(x_)" % d)
        if op in ("call", "invoke"):
            return self.callinst(ind, cur, i, d, loc)
        if op == "br":
            if len(ops) == 1:
                return self.goto(ind, cur, ops[0][1])
            # operands: condition, false target, true target
            e("if %s:" % self.v(ops[0]))
            self.goto(ind + 1, cur, ops[2][1])
            return self.goto(ind, cur, ops[1][1])
        if op == "switch":
            x = self.v(ops[0])
            sw = width(self.opty(ops[0])) or 64
            e("x_ = %s + 0" % x)
            for c, t in i["cases"]:
                e("if x_ == %d:" % (c & ((1 << sw) - 1)))
                self.goto(ind + 1, cur, t)
            return self.goto(ind, cur, i["def"])
        if op == "ret":
            return e("return %s" % (self.v(ops[0]) if ops else "None"))
        if op == "unreachable":
            return e("raise Viol('unreachable', 'execution reaches a point that must not be reached')")
        if op == "landingpad":
            return e("%s = (exc_.obj, sel_)" % d)
        if op == "resume":
            return e("raise M.throws[%s[0]]" % self.v(ops[0]))
        return e("raise Unsupported(%r)" % ("instruction " + op))

    def callexpr(self, i):
        ops = i["ops"]
        a = [self.v(o) for o in ops]
        fn = i.get("fn")
        if fn is None:
            if i.get("callee", [""])[0] == "asm":
                return "None"
            return "M.indirect(%s)" % ", ".join([self.v(i["callee"])] + a)
        if fn in self.mod.index:
            return "F['f_%d'](%s)" % (self.mod.index[fn], ", ".join(a))
        if fn.startswith("llvm."):
            n = fn.split(".")
            if any(fn.startswith(s) for s in SKIP):
                return "None"
            k = n[1]
            if fn.startswith("llvm.memcpy") or fn.startswith("llvm.memmove"):
                return "M.memcpy(%s, %s, %s)" % tuple(a[:3])
            if fn.startswith("llvm.memset"):
                return "M.memset(%s, %s, %s)" % tuple(a[:3])
            if k in ("fma", "fmuladd"):
                return "fma(%s)" % ", ".join(a)
            if k == "threadlocal":
                return a[0]
            if fn.startswith("llvm.eh.typeid.for"):
                return "M.tid(%s)" % a[0]
            if k == "expect":
                return a[0]
            if k == "trap":
                return "M.extern('abort')()"
            if k in ("umax", "umin"):
                return "%s(%s)" % (k[1:], ", ".join(a))
            if k in ("smax", "smin"):
                w = width(i["ty"])
                return "%s(%s) & %d" % (k[1:], ", ".join(self.sx(x, w) for x in a), (1 << w) - 1)
            if k == "usub" and n[2] == "sat":
                return "max(%s - %s, 0)" % tuple(a)
            if k in ("umul", "uadd", "usub") and n[2] == "with":
                w = int(n[-1][1:])
                o = {"umul": "*", "uadd": "+", "usub": "-"}[k]
                return "(lambda z: (z & %d, not 0 <= z < %d))(%s %s %s)" % ((1 << w) - 1, 1 << w, a[0], o, a[1])
            if k == "ctlz":
                w = width(i["ty"])
                return "%d - (%s).bit_length()" % (w, a[0])
            if k == "abs":
                w = width(i["ty"])
                return "abs(%s) & %d" % (self.sx(a[0], w), (1 << w) - 1)
            if k == "is" and n[2] == "constant":
                return "False"
            if k == "objectsize":
                return str((1 << 64) - 1)
            m = {"fabs": "fabs", "sqrt": "sqrt", "pow": "pow", "sin": "sin", "cos": "cos", "exp": "exp", "log": "log", "floor": "floor",
                 "ceil": "ceil", "trunc": "trunc", "copysign": "copysign", "maxnum": "fmax", "minnum": "fmin", "exp2": "exp2", "log2": "log2",
                 "log10": "log10", "round": "round"}.get(k)
            if m:
                return "M.extern(%r)(%s)" % (m, ", ".join(a))
            return "M.extern(%r)(%s)" % (fn, ", ".join(a))
        return "M.extern(%r)(%s)" % (fn, ", ".join(a))

    def callinst(self, ind, cur, i, d, loc):
        x = self.callexpr(i)
        if i["op"] == "call":
            self.emit(ind, "%s = %s" % (d, x) if i["ty"] != "void" else x, loc)
            return
        lp = next(k for k in self.byid[i["unwind"]]["insts"] if k["op"] == "landingpad")
        self.emit(ind, "try:")
        self.emit(ind + 1, "%s = %s" % (d, x), loc)
        self.emit(ind, "except CxxThrow as x_:", loc)
        self.emit(ind + 1, "exc_ = x_", loc)
        cl = self.K(["pyclauses"]) if False else None
        self.emit(ind + 1, "sel_ = M.match(x_, %r, %r)" % (lp["clauses"], lp["cleanup"]), loc)
        self.emit(ind + 1, "if sel_ is None: raise", loc)
        self.goto(ind + 1, cur, i["unwind"])
        self.goto(ind, cur, i["normal"])


def _snapshot(self):
    return ({k: r.clone() for k, r in self.regs.items()}, self.next, self.thread, dict(self.tls), self.allocs,
            [list(x) for x in self.sp], dict(self.throws))


def _restore(self, s):
    self.regs = {k: r.clone() for k, r in s[0].items()}
    self.next, self.thread, self.tls, self.allocs = s[1], s[2], dict(s[3]), s[4]
    self.sp = [list(x) for x in s[5]]
    self.throws = dict(s[6])


Machine.snapshot, Machine.restore = _snapshot, _restore

PIPE = ("always-inline,cgscc(inline),function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,gvn,simplifycfg,adce)")


def canonical(M, roots, skip=()):
    """shape graph reachable from the given objects, with objects renamed in order of discovery"""
    num_, order = {}, []

    def ref(a):
        i = a >> SH
        if i not in num_:
            num_[i] = len(order)
            order.append(i)
        return ("p", num_[i], a & OM)
    for r in roots:
        ref(r)
    out = []
    k = 0
    while k < len(order):
        r = M.regs.get(order[k])
        k += 1
        if r is None or not r.live:
            out.append("gone")
            continue
        if r.kind in ("func",) or r.const:
            out.append(r.name)
            continue
        cs = []
        for o in sorted(r.cells):
            n, v = r.cells[o]
            if v.__class__ is tuple and v and v[0] == "lazy":
                v = M.const(v[1])
            if isinstance(v, P):
                v = ("f", v.key())
            elif v is UNDEF:
                continue
            elif isinstance(v, int):
                v = int(v)
                if n == 8 and v >= (1 << SH) and (v >> SH) in M.regs:
                    v = ref(v)
            cs.append((o, n, v))
        out.append((r.kind, r.size, tuple(cs), tuple(sorted(r.fills))))
    return tuple(out)
