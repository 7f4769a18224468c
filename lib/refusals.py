"""Erroneous requests: after every operation of a client history everything the tape has to refuse is requested,
and the history goes on as if nothing had happened."""
import absint, tapesim
from absint import sym
from tapesim import *

DEBUG = ("default", "reusedbg")


def poked(name):
    f = getattr(Sim, name)

    def g(self, *a, **k):
        self.deep += 1
        if name in ("resetto", "newrec", "clearall"):
            self.stale = False
        try:
            r = f(self, *a, **k)
        finally:
            self.deep -= 1
        if not self.deep:
            for t in list(self.T):
                self.poke(t)
        return r
    return g


class PokeSim(Sim):
    deep = 0
    asked = 0

    def __init__(self, *a):
        self.asize = 0
        Sim.__init__(self, *a)
        self.asize = self.call("e_asize")
        self.reset()

    def reset(self):
        Sim.reset(self)
        self.deep = 0
        self.var = self.M.alloc(self.asize, "global", "variable")
        self.quiet = self.stale = False

    def clearafter(self, *a, **k):
        # variables behind the position have no derivative until they are dropped or the tape is reset
        self.stale = True
        return Sim.clearafter(self, *a, **k)

    def ask(self, want, name, *a):
        self.asked += 1
        self.throws(want, name, *a)

    def poke(self, t):
        if self.quiet or self.pending or t not in self.T:
            return
        p, o = self.T[t]
        v = self.put(self.fresh("bad"))
        for s in (o.high + 2, IS64):
            self.ask("OutOfRange", "e_der", p, s, self.buf)
            self.ask("OutOfRange", "e_setder", p, s, v)
            self.ask("OutOfRange", "e_setdermove", p, s, v)
            self.ask("OutOfRange", "e_derset", p, s, v)
            self.ask("OutOfRange", "e_incr", p, s, v)
            self.ask("OutOfRange", "e_getreset", p, s, self.buf)
            if self.cfg in DEBUG:
                self.ask("OutOfRange", "e_cder", p, s, self.buf)
                self.ask("OutOfRange", "e_getder", p, s, self.buf)
        if o.der is None:
            self.ask("DerivativesNotInitialized", "e_compute", p)
        if self.cfg in DEBUG and not self.stale:
            for x, s in o.slots.items():
                for f in ("e_cder", "e_getder"):
                    if o.der is None:
                        self.ask("DerivativesNotInitialized", f, p, s, self.buf)
                        continue
                    self.lastcall = f
                    self.put(self.fresh("junk"))
                    st, e = self.M.call(f, p, s, self.buf)
                    want = o.der.get(s, self.zero)
                    if st != "ok":
                        # no derivative is stored yet for variables registered after the last access
                        if "OutOfRange" not in e or not want.same(self.zero):
                            raise Mismatch("throw", "getting the derivative of slot %d of a constant tape throws %s" % (s, dem_ti(e)))
                    elif not self.get().same(want):
                        raise Mismatch("adjoint", "the derivative of slot %d of a constant tape is %r, it has to be %r" % (s, self.get(), want))
        if not o.owned:
            self.ask("OutOfRange", "e_lastcb", p)
            self.ask("OutOfRange", "e_popcb", p)
        # a variable without an active tape has no derivative
        if self.call("e_getactive") == 0:
            self.quiet = True
            w = self.fresh("w")
            self.call("e_actor", self.var, self.put(w))
            self.ask("NoTapeException", "e_ader", self.var, self.buf)
            self.ask("NoTapeException", "e_asetder", self.var, v)
            self.put(self.fresh("junk"))
            self.call("e_aval", self.var, self.buf)
            if not self.get().same(w) or self.call("e_arec", self.var):
                raise Mismatch("unchanged", "a variable whose derivative was refused has changed")
            self.call("e_adtor", self.var)
            self.quiet = False
        # nothing has changed
        self.deep += 1
        try:
            self.counts(t)
            self.numvars(t)
            if o.der is not None and not self.stale:
                self.checkders(t)
        finally:
            self.deep -= 1


for _n in ("reg", "unreg", "lhs", "setder", "compute", "newrec", "clearall", "clearder", "resetto", "cb", "new", "stmt", "inp"):
    setattr(PokeSim, _n, poked(_n))


def thrower(s, t, ti="_ZTIN3xad10OutOfRangeE"):
    """an exception leaves the callback"""
    s.M.throw(s.M.gaddress(ti))


def h_thrown(s, n1, n2, k, how, after):
    """a checkpoint callback throws: the exception arrives at the caller, and the tape can be given back or cleared"""
    from tapehist import inputs, record
    import random
    s.new()
    rng = random.Random(n1 * 10 + n2)
    inputs(s, 2)
    s.newrec()
    record(s, rng, n1, 2, [2, 1], reuse=0)

    def boom(s, t):
        if how == "nested":
            s.call("e_newnested", s.p(t))
            s.call("e_reg", s.p(t))
        elif how == "ended":
            s.nest(t)
            s.inp("n", t)
            s.unreg("n", t)
            s.unnest(t)
        elif how == "registered":
            s.call("e_reg", s.p(t))
        thrower(s, t)
    for j in range(k + 1):
        s.cb(j, boom if j == 0 else (lambda s, t: None), own=j % 2 == 0)
        record(s, rng, n2, 2, [2], fresh="z%d_" % j, reuse=0)
    s.setder(list(s.o("t").slots)[-1])
    s.deep += 1
    p, o = s.T["t"]
    s.pending.append(("t", o.base))
    s.throws("OutOfRange", "e_compute", p)
    s.pending.pop()
    s.deep -= 1
    if after == "delete":
        s.quiet = True
        s.finish()
        return
    s.quiet = True
    s.clearall()
    s.quiet = False
    s.counts()
    s.numvars()
    if inputs(s, 2) != [0, 1]:
        raise Mismatch("clearAll", "after clearAll the first variables do not get the slots 0 and 1")
    s.newrec()
    record(s, rng, 4, 2, [2, 1], fresh="w", reuse=0.2)
    s.setder(list(s.o("t").slots)[-1])
    s.compute()
    s.checkders()
    s.finish()


def thrown(sc, tier):
    from tapehist import H
    import itertools
    out = []
    for n1, n2, k, how, a in itertools.product((0, 3), (0, 1, 4), (0, 1, 2), ("plain", "nested", "ended", "registered"), ("delete", "clear")):
        if tier != "quick" or (n1 + n2 + k) % 2 == 0:
            out.append(H("a callback throws", h_thrown, n1, n2, k, how, a))
    return out


def all_families(sc, tier):
    import tapehist
    out = thrown(sc, tier)
    step = 7 if tier == "quick" else 1
    for f in ("sweeps", "positions", "restarts", "checkpoints"):
        out += getattr(tapehist, f)(sc, tier)[::step]
    return out
