"""The tape under its public interface: every step of a client history is taken twice, once through the
abstract transfer functions of the analysed code (absint) and once in the reference semantics below."""
import math, os, re, zlib
import absint
from absint import P, ZERO, Viol, Unsupported, num, sym
from common import *

IS64 = 0xffffffff
SIZES = {"double": (8, 1), "float": (4, 1), "FReal<double>": (8, 2), "FReal<float>": (4, 2)}


class V:
    """a scalar of the tape: 1 component, or value and tangent"""
    __slots__ = ("c",)

    def __init__(self, *c):
        self.c = c

    def __add__(a, b):
        return V(*[x + y for x, y in zip(a.c, b.c)])

    def __mul__(a, b):
        if len(a.c) == 1:
            return V(a.c[0] * b.c[0])
        return V(a.c[0] * b.c[0], a.c[1] * b.c[0] + a.c[0] * b.c[1])

    def same(a, b):
        return all(x is not absint.UNDEF and x.t == y.t for x, y in zip(a.c, b.c))

    def __repr__(self):
        return repr(self.c[0]) if len(self.c) == 1 else "(%r; %r)" % self.c


def inf(x=math.inf):
    return V(absint.num(x))


class Mismatch(Exception):
    def __init__(self, rule, msg):
        Exception.__init__(self, msg)
        self.rule, self.msg = rule, msg


OBSERVERS = ("e_der", "e_cder", "e_getder", "e_getpos", "e_nvars", "e_nops", "e_nstmts", "e_nreuse", "e_nsect", "e_memory", "e_lastcb", "e_ncb",
             "e_havecb", "e_isactive", "e_getactive", "e_arec", "e_aslot", "e_aval", "e_ader")
_mods = {}


def module(drv, sc, ch, cfg, flags=()):
    key = (drv, sc, ch, cfg) + tuple(flags)
    if key in _mods:
        return _mods[key]
    bc = os.path.join(workdir(), "%s-%s-%s-%s-%x.bc" % (drv, re.sub(r"\W", "", sc), ch, cfg, zlib.crc32(repr(flags).encode())))
    r = compile_bc(os.path.join(VERIF, "drivers", drv + ".cpp"), bc, cfg, extra=["-DSCALAR=" + xt(sc), "-DCH=%s" % ch] + list(flags))
    if r.returncode != 0:
        raise Broken("driver %s does not compile for %s: %s" % (drv, sc, "\n".join(l for l in r.stderr.splitlines() if "error" in l)[:800]))
    js = irdump(bc, ".*", [], absint.PIPE, nounwind=False, noinline=True, init=True, reach="^e_")
    _mods[key] = absint.Module(js)
    return _mods[key]


def xt(sc):
    return sc.replace("FReal", "xad::FReal").replace("AReal", "xad::AReal")


def modules(specs):
    """build several drivers side by side"""
    pmap(lambda s: module(*s), specs)


def at(where):
    """innermost position inside the repository"""
    for f, l, fn in reversed(where or []):
        if "XAD" in f or f.endswith("Tape.cpp"):
            return "%s:%d" % (f.split("/src/")[-1], l), fn
    return "?", "?"


class TapeObj:
    """reference state of one tape"""

    def __init__(self):
        self.slots = {}        # live registered variables -> slot
        self.stmts = []        # (lhs slot, [(multiplier, slot)]) or ("cb", id, pointer)
        self.ckpt = []
        self.der = None        # slot -> V, None: not initialised
        self.high = 0          # no slot at or above this was ever handed out
        self.maxder = None
        self.owned = []
        self.incb = set()      # variables registered by a callback
        self.base = 0


class Sim:
    def __init__(self, sc="double", ch=4, cfg="default", drv="tape"):
        self.sc, self.ch, self.cfg, self.drv = sc, ch, cfg, drv
        self.mod = module(drv, sc, ch, cfg)
        self.M = absint.Machine(self.mod)
        self.n, self.k = SIZES[sc]
        self.M.hooks["hook_cb"] = self.on_cb
        self.M.hooks["hook_cbdel"] = self.on_cbdel
        self.tsize = self.call("e_size")
        self.clean = self.M.snapshot()
        self.reset()

    def reset(self):
        self.M.restore(self.clean)
        self.M.sp = []
        self.pending = []
        self.M.throws = {}
        self.T = {}            # tape name -> (pointer, TapeObj)
        self.buf = self.M.alloc(64, "global", "argument")
        self.arr = self.M.alloc(512, "global", "argument array")
        self.arr2 = self.M.alloc(512, "global", "argument array")
        self.base = set(r.id for r in self.M.leaks())
        self.trace = []
        self.ns = 0
        self.cbs = {}
        self.cbdel = []
        self.cbact = {}
        self.called = []
        self.nested = 0

    # ---- values
    def fresh(self, pre="m", scale=1.0):
        self.ns += 1
        h = zlib.crc32(b"%s%d" % (pre.encode(), self.ns))
        w = ((h % 1999) / 999.0 + 0.25) * (1 if (h >> 12) & 1 else -1)
        if self.k == 1:
            return V(sym("%s%d" % (pre, self.ns), w))
        return V(sym("%s%d" % (pre, self.ns), w), sym("%s%d'" % (pre, self.ns), w * 0.7 + 0.1))

    def const(self, x):
        return V(*([num(x)] + [ZERO] * (self.k - 1)))

    @property
    def zero(self):
        return V(*([ZERO] * self.k))

    def put(self, v, p=None):
        p = p or self.buf
        for i, c in enumerate(v.c):
            self.M.store(p + i * self.n, self.n, c)
        return p

    def get(self, p=None):
        p = p or self.buf
        out = []
        for i in range(self.k):
            c = self.M.load(p + i * self.n, self.n)
            out.append(absint.i2f(c, self.n) if isinstance(c, int) else c)
        return V(*out)

    # ---- calls
    def raw(self, name, *a):
        return self.M.call(name, *a)

    def call(self, name, *a):
        if name not in OBSERVERS:
            self.lastcall = name
        st, v = self.M.call(name, *a)
        if st != "ok":
            raise Mismatch("throw", "throws %s" % dem_ti(v))
        return v

    def throws(self, want, name, *a):
        self.lastcall = name
        st, v = self.M.call(name, *a)
        if st == "ok":
            raise Mismatch("nothrow", "does not throw %s" % want)
        if want not in v:
            raise Mismatch("throw", "throws %s instead of %s" % (dem_ti(v), want))

    # ---- life of tapes
    def new(self, name="t", active=0):
        p = self.M.alloc(self.tsize, "global", "tape " + name)
        self.call("e_ctor", p, active)
        self.T[name] = (p, TapeObj())
        return p

    def p(self, t):
        return self.T[t][0]

    def o(self, t):
        return self.T[t][1]

    def delete(self, t):
        p, o = self.T.pop(t)
        self.call("e_dtor", p)
        for i in o.owned:
            if i not in self.cbdel:
                raise Mismatch("ownership", "callback %d pushed to the tape is not destroyed with it" % i)

    def finish(self):
        for t in list(self.T):
            self.delete(t)
        for i, cp in self.cbs.items():
            if i not in self.cbdel:
                self.call("e_cbdelete", cp)
        left = [r for r in self.M.leaks() if r.id not in self.base]
        if left:
            raise Mismatch("leak", "%d allocation(s) are never released, e.g. a %s" % (len(left), left[0].what()))

    # ---- registration
    def reg(self, v, t="t"):
        p, o = self.T[t]
        s = self.call("e_reg", p)
        return self.newslot(v, s, o)

    def newslot(self, v, s, o):
        for w, k in o.slots.items():
            if k == s:
                raise Mismatch("alias", "slot %d given to a new variable belongs to a live one" % s)
        if s == IS64:
            raise Mismatch("alias", "the invalid slot is handed out")
        o.slots[v] = s
        if self.pending:
            d = (o.der or {}).get(s)
            if d is not None and not d.same(self.zero):
                raise Mismatch("pending", "slot %d of a variable registered by a callback carries the adjoint %r of a variable that is gone but "
                               "whose statement has yet to be propagated" % (s, d))
            o.incb.add(v)
        o.high = max(o.high, s + 1)
        if o.der is not None and s not in o.der:
            o.der[s] = self.zero
        return s

    def inp(self, v, t="t"):
        s = self.reg(v, t)
        self.lhs(s, [], t)
        return s

    def unreg(self, v, t="t"):
        p, o = self.T[t]
        self.call("e_unreg", p, o.slots[v])
        s = o.slots.pop(v)
        if v in o.incb:
            # nothing of a section outlives it
            o.incb.discard(v)
            o.der.pop(s, None)

    def lhs(self, s, ops, t="t", style=0):
        p, o = self.T[t]
        if style == 1 and ops:
            for i, (m, k) in enumerate(ops):
                self.put(m, self.arr + i * self.n * self.k)
                self.M.store(self.arr2 + 4 * i, 4, k)
            self.call("e_pushall", p, s, self.arr, self.arr2, len(ops))
        else:
            for m, k in ops:
                self.call("e_rhsmove" if style == 2 else "e_rhs", p, self.put(m), k)
            self.call("e_lhs", p, s)
        o.stmts.append((s, list(ops)))

    def stmt(self, v, deps, t="t", style=0, new=None):
        """v becomes a function of the variables deps, with symbolic partial derivatives"""
        o = self.o(t)
        ops = [(d[1], o.slots[d[0]]) if isinstance(d, tuple) else (self.fresh(), o.slots[d]) for d in deps]
        if v not in o.slots:
            self.reg(v, t)
        self.lhs(o.slots[v], ops, t, style)

    # ---- derivatives
    def initder(self, o):
        if o.der is None:
            o.der = {}
        return o.der

    def setder(self, v, val=None, t="t", style=0):
        p, o = self.T[t]
        val = val or self.fresh("s")
        self.call(("e_setder", "e_setdermove", "e_derset")[style], p, o.slots[v], self.put(val))
        self.initder(o)[o.slots[v]] = val

    def incr(self, slot, val, t="t"):
        p, o = self.T[t]
        self.call("e_incr", p, slot, self.put(val))
        o.der[slot] = o.der.get(slot, self.zero) + val

    def take(self, slot, t="t"):
        p, o = self.T[t]
        self.put(self.fresh("junk"))
        self.call("e_getreset", p, slot, self.buf)
        got, want = self.get(), o.der.get(slot, self.zero)
        o.der[slot] = self.zero
        if not got.same(want):
            raise Mismatch("take", "getAndResetOutputAdjoint gives %r, the adjoint is %r" % (got, want))
        return want

    def peek(self, v, t="t", how="e_der"):
        """derivative of a live variable, without leaving a trace"""
        p, o = self.T[t]
        s = self.M.snapshot()
        self.put(self.fresh("junk"))
        try:
            self.call(how, p, o.slots[v] if not isinstance(v, int) else v, self.buf)
            return self.get()
        finally:
            self.M.restore(s)

    def checkders(self, t="t", only=None, how="e_der"):
        p, o = self.T[t]
        for v, s in o.slots.items():
            if only is not None and v not in only:
                continue
            got = self.peek(v, t, how)
            want = (o.der or {}).get(s, self.zero)
            if not got.same(want):
                raise Mismatch("adjoint", "the derivative of %s (slot %d) is %r, it has to be %r" % (v, s, got, want))

    def counts(self, t="t"):
        p, o = self.T[t]
        n = len(o.stmts)
        for f, what, want in (("e_getpos", "getPosition", n), ("e_nstmts", "getNumStatements", n),
                              ("e_nops", "getNumOperations", sum(len(x[1]) for x in o.stmts if x[0] != "cb"))):
            got = self.call(f, p)
            if got != want:
                raise Mismatch("counts", "%s gives %d, %d recorded" % (what, got, want))

    def position(self, t="t"):
        p, o = self.T[t]
        got = self.call("e_getpos", p)
        if got != len(o.stmts):
            raise Mismatch("counts", "getPosition gives %d, %d recorded" % (got, len(o.stmts)))
        return got

    def numvars(self, t="t"):
        p, o = self.T[t]
        got = self.call("e_nvars", p)
        if got != len(o.slots):
            raise Mismatch("counts", "getNumVariables gives %d, %d variables are registered" % (got, len(o.slots)))

    # ---- sweeps
    def sweep(self, t="t", pos=None):
        """reference reverse sweep"""
        p, o = self.T[t]
        o.der = o.der if o.der is not None else {}
        for st in reversed(o.stmts[o.base if pos is None else pos:]):
            self.refstmt(o, st)

    def compute(self, t="t", pos=None):
        p, o = self.T[t]
        if any(x[0] == "cb" for x in o.stmts[(o.base if pos is None else pos):]):
            return self.compute_cb(t, pos)
        if pos is None:
            self.call("e_compute", p)
        else:
            self.call("e_computeto", p, pos)
        self.sweep(t, pos)

    def compute_throws(self, t="t"):
        self.throws("DerivativesNotInitialized", "e_compute", self.p(t))

    # ---- checkpoints: the callback runs inside the analysed sweep, so the reference sweep is interleaved with it
    def cb(self, i, act, t="t", own=False):
        p, o = self.T[t]
        if i not in self.cbs:
            self.cbs[i] = self.call("e_cbnew", i)
            if own:
                self.call("e_pushcb", p, self.cbs[i])
                o.owned.append(i)
        self.cbact.setdefault(i, []).append(act)
        self.call("e_insertcb", p, self.cbs[i])
        o.stmts.append(("cb", i, self.cbs[i]))

    def compute_cb(self, t, pos):
        p, o = self.T[t]
        lo = o.base if pos is None else pos
        self.pending.append((t, lo))
        n0 = len(self.called)
        want = [x[1] for x in reversed(o.stmts[lo:]) if x[0] == "cb"]
        if pos is None:
            self.call("e_compute", p)
        else:
            self.call("e_computeto", p, pos)
        self.pending.pop()
        if self.top_called(n0) != want:
            raise Mismatch("callbacks", "callbacks called: %s, they have to be called in the order %s" % (self.top_called(n0), want))
        self.tail(t, lo)

    def top_called(self, n0):
        return [i for i, d in self.called[n0:] if d == len(self.pending)]

    def tail(self, t, lo):
        """reference: back from the end to the next checkpoint, if there is one, or to lo; what lies behind the
        checkpoint is gone afterwards, and the checkpoint too"""
        o = self.o(t)
        i = len(o.stmts)
        while i > lo:
            i -= 1
            st = o.stmts[i]
            if st[0] == "cb":
                del o.stmts[i:]
                return st
            self.refstmt(o, st)
        return None

    def refstmt(self, o, st):
        d = o.der
        a = d.get(st[0], self.zero)
        d[st[0]] = self.zero
        if a.same(self.zero):
            return   # contributes nothing, also through infinite multipliers
        for m, s in st[1]:
            d[s] = d.get(s, self.zero) + m * a

    def on_cb(self, i, tp):
        if not getattr(self, "pending", None):
            raise Mismatch("callbacks", "callback %d is called outside a sweep" % i)
        t, lo = self.pending[-1]
        p, o = self.T[t]
        if tp != p:
            raise Mismatch("callbacks", "the callback is given a different tape")
        self.called.append((i, len(self.pending) - 1))
        st = self.tail(t, lo)
        if st is None or st[1] != i:
            raise Mismatch("callbacks", "callback %d is called out of order" % i)
        act = self.cbact[i].pop()
        # everything after the checkpoint has been rolled back, nothing before it
        self.checkders(t)
        self.counts(t)
        n = len(o.stmts)
        act(self, t)
        del o.stmts[n:]
        return None

    def on_cbdel(self, i):
        if i in self.cbdel:
            raise Mismatch("ownership", "callback %d is destroyed twice" % i)
        self.cbdel.append(i)

    # ---- nested recordings (inside a callback)
    def nest(self, t="t"):
        p, o = self.T[t]
        self.call("e_newnested", p)
        self.enter(o)

    def enter(self, o):
        if not hasattr(o, "saved"):
            o.saved = []
        o.saved.append((list(o.stmts), o.base))
        o.base = len(o.stmts)

    def unnest(self, t="t"):
        p, o = self.T[t]
        self.call("e_endnested", p)
        self.leave(o, t)

    def leave(self, o, t="t"):
        o.stmts, o.base = o.saved.pop()
        self.counts(t)

    # ---- tape control
    def resetto(self, pos, t="t"):
        p, o = self.T[t]
        self.call("e_resetto", p, pos)
        if pos < len(o.stmts):
            o.stmts = o.stmts[:pos]

    def clearder(self, t="t"):
        self.call("e_clearder", self.p(t))
        self.o(t).der = None

    def clearafter(self, pos, keep, t="t"):
        """keep: variables registered up to the position"""
        p, o = self.T[t]
        self.call("e_clearafter", p, pos)
        if o.der is not None:
            ks = set(o.slots[v] for v in keep)
            o.der = {s: d for s, d in o.der.items() if s in ks}

    def newrec(self, t="t"):
        p, o = self.T[t]
        self.call("e_newrec", p)
        o.stmts, o.der, o.base = [], None, 0

    def clearall(self, t="t"):
        p, o = self.T[t]
        self.call("e_clearall", p)
        own = o.owned
        self.T[t] = (p, TapeObj())
        self.T[t][1].owned = own


def dem_ti(n):
    m = re.match(r"_ZTI(?:N3xad)?(?:St)?(\d+)(\w+)", n)
    if m:
        return m.group(2)[:int(m.group(1))]
    return n
