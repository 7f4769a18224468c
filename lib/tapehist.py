"""Client histories of the tape, by subject.  Each is a function of a Sim; the parameters are enumerated."""
import itertools, math, random
from tapesim import Sim, Mismatch, V, inf


class H:
    def __init__(self, name, fn, *args):
        self.name, self.fn, self.args = name, fn, args

    def text(self):
        return "%s%s" % (self.name, self.args if self.args else "")


def inputs(s, n, t="t"):
    return [s.inp("x%d" % i, t) for i in range(n)]


def record(s, rng, nst, nin, widths, style=0, t="t", reuse=0.3, fresh="y", start=0):
    """nst statements; each assigns a new variable or an existing one; operands drawn from the live variables"""
    o = s.o(t)
    for k in range(start, start + nst):
        live = list(o.slots)
        w = widths[k % len(widths)]
        if style in (1, 9) and s.ch:
            w = min(w, s.ch)   # pushAll takes at most one chunk
        ops = [rng.choice(live) for _ in range(w)]
        if rng.random() < reuse and k:
            v = rng.choice(live)
        else:
            v = "%s%d" % (fresh, k)
        s.stmt(v, ops, t, style if style != 9 else k % 3)


# ---------------------------------------------------------------- adjoint sweep

def h_sweep(s, seed, nst, nin, widths, style, seeds, twice):
    rng = random.Random(seed)
    s.new()
    inputs(s, nin)
    s.newrec()
    record(s, rng, nst, nin, widths, style)
    s.counts()
    s.numvars()
    vs = list(s.o("t").slots)
    outs = {"last": vs[-1:], "all": vs, "first": vs[:1], "some": rng.sample(vs, (len(vs) + 1) // 2)}[seeds]
    for k, v in enumerate(outs):
        s.setder(v, style=k % 3)
    s.compute()
    s.checkders()
    s.counts()
    if twice:
        # adjoints not cleared keep accumulating
        for v in outs[:2]:
            s.setder(v)
        s.compute()
        s.checkders()
        s.clearder()
        s.compute_throws()
        s.setder(outs[0])
        s.compute()
        s.checkders()
    s.finish()


def h_zero(s, nst):
    """an adjoint that is exactly zero contributes nothing and is passed over"""
    s.new()
    inputs(s, 2)
    s.newrec()
    for k in range(nst):
        s.stmt("y%d" % k, ["x0", "x1"] if k == 0 else ["y%d" % (k - 1), "x1"])
    s.setder("y%d" % (nst - 1), s.zero)
    s.setder("y0")
    s.compute()
    s.checkders()
    s.finish()


def h_cancel(s, tangent):
    """contributions to an intermediate adjoint that cancel in value (and, for tangent, not in the tangent)"""
    s.new()
    inputs(s, 1)
    s.newrec()
    s.stmt("u", ["x0"])
    m = s.fresh()
    n = V(*([-m.c[0]] + list(s.fresh().c[1:] if tangent else [-c for c in m.c[1:]])))
    s.stmt("y", [("u", m), ("u", n)])
    s.setder("y")
    s.compute()
    s.checkders()
    s.finish()


def h_infinite(s, neg, twice):
    """infinite multipliers: a zero adjoint contributes nothing through them, others are infinite; nothing remains in the intermediates"""
    w = inf(-math.inf if neg else math.inf)
    s.new()
    inputs(s, 2)
    s.newrec()
    s.stmt("u", [("x0", w), ("x1", s.fresh())])      # its adjoint is zero
    s.stmt("v", [("x1", w)])
    s.stmt("y", ["v", "x0"])
    s.stmt("z", ["u", "x0"])
    for _ in range(2 if twice else 1):
        s.setder("u", s.zero)
        s.setder("y")
        s.setder("z", s.zero)
        s.compute()
        s.checkders()
    s.finish()


def h_seedtangent(s):
    """a seed with value zero and a tangent"""
    s.new()
    inputs(s, 2)
    s.newrec()
    s.stmt("u", ["x0", "x1"])
    f = s.fresh("s")
    s.setder("u", V(*([s.zero.c[0]] + list(f.c[1:]))))
    s.compute()
    s.checkders()
    s.finish()


def h_late(s, nbefore, nafter, how):
    """recording continues after derivatives were accessed"""
    rng = random.Random(7 * nbefore + nafter)
    s.new()
    inputs(s, 2)
    s.newrec()
    record(s, rng, nbefore, 2, [2], reuse=0)
    s.setder("y%d" % (nbefore - 1))
    record(s, rng, nafter, 2, [2, 1], reuse=0, fresh="z")
    if how == "set":
        s.setder("z%d" % (nafter - 1))
    s.compute()
    s.checkders()
    s.finish()


def h_norec(s, nst):
    """variables without newRecording: the registration statements reset the inputs' adjoints on the way back"""
    s.new()
    inputs(s, 2)
    record(s, random.Random(nst), nst, 2, [2, 1], reuse=0)
    s.setder("y%d" % (nst - 1))
    s.compute()
    s.checkders()
    s.finish()


def h_uninit(s, nst):
    s.new()
    inputs(s, 2)
    s.newrec()
    record(s, random.Random(nst), nst, 2, [2, 1])
    s.compute_throws()
    s.counts()
    s.numvars()
    s.setder("x0")
    s.setder(list(s.o("t").slots)[-1])
    s.compute()
    s.checkders()
    s.newrec()
    s.compute_throws()
    s.finish()


def sweeps(sc, tier):
    out = []
    n = 15 if tier == "quick" else 40
    W = [[2], [1], [3, 0, 2], [5, 1], [1, 4, 2], [0, 2], [7, 1, 9]]
    seed = 0
    for nst in range(1, n):
        for k in range(2 if tier == "quick" else 6):
            seed += 1
            out.append(H("recording of %d statements" % nst, h_sweep, seed, nst, 1 + seed % 3, W[seed % len(W)], (0, 1, 2, 9)[seed % 4],
                         ("last", "all", "some", "first")[(seed // 2) % 4], seed % 3 == 0))
    for nst in (1, 2, 3, 4, 5, 9):
        out.append(H("zero seed", h_zero, nst))
        out.append(H("no newRecording", h_norec, nst))
        out.append(H("computeAdjoints before any derivative is set", h_uninit, nst))
    for a, b in ((1, 1), (1, 3), (3, 6), (2, 9)):
        out.append(H("recording continued after a derivative was set", h_late, a, b, "none"))
        out.append(H("recording continued after a derivative was set", h_late, a, b, "set"))
    out.append(H("cancelling contributions", h_cancel, False))
    if not sc.startswith("FReal"):
        for neg, tw in itertools.product((False, True), repeat=2):
            out.append(H("infinite multipliers and zero adjoints", h_infinite, neg, tw))
    else:
        out.append(H("contributions that cancel in value only", h_cancel, True))
        out.append(H("seed with zero value", h_seedtangent))
    return out


# ---------------------------------------------------------------- positions

def h_partial(s, seed, n1, n2, cont, widths):
    """computeAdjointsTo a position, then roll the tape back to it and carry on"""
    rng = random.Random(seed)
    s.new()
    inputs(s, 2)
    s.newrec()
    record(s, rng, n1, 2, widths, reuse=0.2)
    pos = len(s.o("t").stmts)
    keep = list(s.o("t").slots)
    record(s, rng, n2, 2, widths, fresh="z", reuse=0.1)
    vs = list(s.o("t").slots)
    s.setder(vs[-1])
    s.setder(vs[0])
    s.compute(pos=pos)
    s.checkders()
    s.counts()
    if cont == "rest":
        s.compute()
        s.checkders()
    elif cont == "reset":
        s.resetto(pos)
        s.counts()
        s.checkders()
        s.compute()
        s.checkders()
    elif cont == "again":
        s.resetto(pos)
        s.clearder()
        gone = [v for v in s.o("t").slots if v not in keep]
        for v in reversed(gone):
            s.unreg(v)
        record(s, rng, n2 + 1, 2, widths, fresh="w", reuse=0.1)
        s.counts()
        s.setder(list(s.o("t").slots)[-1])
        s.compute(pos=pos)
        s.checkders()
        s.compute()
        s.checkders()
    elif cont == "twice":
        # the same part again
        s.setder(vs[-1])
        s.compute(pos=pos)
        s.checkders()
        s.compute(pos=0)
        s.checkders()
    s.finish()


def h_loop(s, reps, n2, order):
    """the path-wise pattern: common part, then record, roll back, reset for each path"""
    rng = random.Random(reps * 31 + n2)
    s.new()
    inputs(s, 2)
    s.newrec()
    record(s, rng, 3, 2, [2], reuse=0)
    pos = len(s.o("t").stmts)
    for k in range(reps):
        record(s, rng, n2, 2, [2, 3], fresh="p%d_" % k, reuse=0)
        last = "p%d_%d" % (k, n2 - 1)
        s.setder(last)
        s.compute(pos=pos)
        s.checkders()
        gone = [v for v in s.o("t").slots if v.startswith("p%d_" % k)]
        if order == "unreg-first":
            for v in reversed(gone):
                s.unreg(v)
        s.resetto(pos)
        s.counts()
        if order == "reset-first":
            for v in gone:
                s.unreg(v)
        s.numvars()
    s.compute()
    s.checkders()
    s.finish()


def h_clearafter(s, n1, n2, n3, old):
    """adjoints after a position are dropped, those before keep their values"""
    rng = random.Random(n1 * 31 + n2)
    s.new()
    inputs(s, 2)
    s.newrec()
    record(s, rng, n1, 2, [2], reuse=0)
    if old:
        s.stmt("x0", ["x1"])
    pos = len(s.o("t").stmts)
    keep = list(s.o("t").slots)
    record(s, rng, n2, 2, [2, 1], fresh="z", reuse=0)
    for v in list(s.o("t").slots):
        s.setder(v)
    s.clearafter(pos, keep)
    s.checkders(only=keep)
    if n3:
        for v in [v for v in s.o("t").slots if v not in keep][::-1]:
            s.unreg(v)
        s.resetto(pos)
        record(s, rng, n3, 2, [2, 1], fresh="w", reuse=0)
        s.checkders()
        s.setder("w%d" % (n3 - 1))
        s.compute(pos=pos)
        s.checkders()
    s.finish()


def h_resetnoop(s, n):
    s.new()
    inputs(s, 1)
    s.newrec()
    record(s, random.Random(n), n, 1, [2], reuse=0)
    s.resetto(n)
    s.counts()
    s.resetto(n + 3)
    s.counts()
    s.setder("y%d" % (n - 1))
    s.compute(pos=n)
    s.checkders()
    s.compute()
    s.checkders()
    s.resetto(0)
    s.counts()
    s.compute()
    s.checkders()
    s.finish()


def positions(sc, tier):
    out = []
    W = [[2], [1, 3], [0, 2, 5]]
    seed = 100
    rng = range(0, 9) if tier == "quick" else range(0, 14)
    for n1 in rng:
        for n2 in ((1, 2, 4, 7) if tier == "quick" else range(1, 12)):
            seed += 1
            out.append(H("computeAdjointsTo after %d of %d statements" % (n1, n1 + n2), h_partial, seed, n1, n2,
                         ("rest", "reset", "again", "twice")[seed % 4], W[seed % 3]))
    for reps, n2, o in itertools.product((2, 3), (1, 3, 5), ("unreg-first", "reset-first")):
        out.append(H("record, roll back and reset in a loop", h_loop, reps, n2, o))
    for n1, n2, n3 in itertools.product((1, 3, 4), (1, 4, 6), (0, 2, 5)):
        out.append(H("clearDerivativesAfter", h_clearafter, n1, n2, n3, False))
    for n in (1, 3, 4, 8):
        out.append(H("resetTo the end or beyond", h_resetnoop, n))
    for layout in ((0, 0), (1, 2), (2, 3, 1), (1, 0, 2), (4, 4), (3, 5, 1, 2)):
        seed += 1
        for k in range(len(layout)):
            for b in sorted({0, 1, layout[k]}) if tier == "quick" else range(layout[k] + 1):
                out.append(H("positions in front of, behind and between checkpoints", h_ext, seed, layout, k, None, b))
    for n1, n2, a in itertools.product((0, 3), (0, 1, 4), ("behind", "before")):
        out.append(H("resetTo between checkpoints", h_cbreset, n1, n2, a))
    return out


def run(sim, h):
    """None, ('viol', kind, where, msg), or ('open', reason)"""
    import absint
    from tapesim import at
    try:
        sim.reset()
        h.fn(sim, *h.args)
        return None
    except Mismatch as e:
        return ("viol", e.rule, at(getattr(e, "where", None))[0], e.msg)
    except absint.Viol as e:
        w, fn = at(getattr(e, "where", None))
        return ("viol", e.kind, "%s (%s)" % (w, fn), e.msg)
    except absint.Unsupported as e:
        return ("open", "%s: %s" % (at(getattr(e, "where", None))[0], e))


# ---------------------------------------------------------------- moving tapes

class Mv:
    """tapes by name, with the active one"""

    def __init__(self, s):
        self.s, self.act, self.gone = s, None, {}

    def new(self, t, active=False):
        self.s.new(t, 1 if active else 0)
        if active:
            self.act = t

    def move(self, src, dst):
        s = self.s
        ps, o = s.T[src]
        if dst in s.T or dst in self.gone:
            pd = s.T[dst][0] if dst in s.T else self.gone.pop(dst)
            s.call("e_massign", pd, ps)
            if src == dst:
                return self.check()
            if dst in s.T:
                for i in s.T[dst][1].owned:
                    if i not in s.cbdel:
                        raise Mismatch("ownership", "callback %d owned by the tape assigned to is not destroyed" % i)
            if self.act == dst:
                self.act = None
        else:
            pd = s.M.alloc(s.tsize, "global", "tape " + dst)
            s.call("e_mctor", pd, ps)
        del s.T[src]
        s.T[dst] = (pd, o)
        self.gone[src] = ps
        if self.act == src:
            self.act = dst
        self.check()

    def drop(self, t):
        """destroy a tape moved from"""
        if t in self.gone:
            self.s.call("e_dtor", self.gone.pop(t))
            self.check()

    def check(self):
        s = self.s
        got = s.call("e_getactive")
        want = s.T[self.act][0] if self.act else 0
        if got != want:
            raise Mismatch("active", "the active tape is %s, it has to be %s" % (
                "none" if not got else "another one", "tape " + self.act if self.act else "none"))
        for t, (p, o) in s.T.items():
            if bool(s.call("e_isactive", p)) != (t == self.act):
                raise Mismatch("active", "isActive of tape %s is %s" % (t, t != self.act))
            if s.call("e_ncb", p) != len(o.owned):
                raise Mismatch("ownership", "tape %s holds %d callbacks, %d were given to it" % (t, s.call("e_ncb", p), len(o.owned)))
            s.counts(t)
            s.numvars(t)
            if o.slots:
                s.checkders(t)
        for t, p in self.gone.items():
            if s.call("e_isactive", p):
                raise Mismatch("active", "the tape moved from is active")

    def end(self):
        for t in list(self.gone):
            self.drop(t)
        self.s.finish()


def fill(s, rng, t, kind, ids):
    """puts tape t in one of the states a client can move it in"""
    if kind == "new":
        return
    o = s.o(t)
    for i in range(2):
        s.inp("%sx%d" % (t, i), t)
    s.newrec(t)
    for k in range(5):
        s.stmt("%sy%d" % (t, k), [rng.choice(list(o.slots)) for _ in range(2)], t)
    if kind in ("dropped", "tail"):
        for v in ("%sy1" % t, "%sy3" % t) if kind == "dropped" else ("%sy4" % t, "%sy3" % t, "%sy1" % t):
            s.unreg(v, t)
    if kind in ("seeded", "swept", "dropped"):
        s.setder("%sy2" % t, t=t)
    if kind == "swept":
        s.compute(t)
    if kind == "checkpoint":
        a = ext()
        i = o.slots["%sy4" % t]
        out = s.inp("%se" % t, t)
        s.cb(ids, lambda s, t: a(s, t, [i], out), t, own=True)
        s.stmt("%sz" % t, ["%se" % t, "%sy0" % t], t)


def use(s, rng, t, n):
    """carries on with tape t"""
    o = s.o(t)
    if not o.slots:
        s.inp("%su" % t, t)
    for k in range(3):
        v = "%sn%d_%d" % (t, n, k)
        s.stmt(v, [rng.choice(list(o.slots)) for _ in range(2)], t)
    s.unreg("%sn%d_1" % (t, n), t)
    s.reg("%sm%d" % (t, n), t)
    s.setder("%sn%d_2" % (t, n), t=t)
    s.compute(t)
    s.checkders(t)
    s.counts(t)
    s.numvars(t)


def h_move(s, seed, kind, how, act, early, onto):
    rng = random.Random(seed)
    m = Mv(s)
    m.new("a", act == "source")
    fill(s, rng, "a", kind, 1)
    if how != "construct":
        m.new("b", act == "target")
        fill(s, rng, "b", onto, 2)
    if how == "self":
        m.move("a", "a")
        use(s, rng, "a", 0)
        return m.end()
    m.move("a", "b")
    if early:
        m.drop("a")
    use(s, rng, "b", 0)
    if how == "there and back" and "a" in m.gone:
        m.move("b", "a")
        use(s, rng, "a", 1)
        m.move("a", "c")
        use(s, rng, "c", 2)
        s.newrec("c")
        use(s, rng, "c", 3)
    elif how == "swap":
        # as std::swap does it
        m.move("b", "t")
        use(s, rng, "t", 1)
        if "a" in m.gone:
            m.new("d")
            fill(s, rng, "d", onto, 3)
            m.move("d", "a")
            m.move("t", "d")
            use(s, rng, "a", 2)
            use(s, rng, "d", 3)
    else:
        s.newrec("b")
        use(s, rng, "b", 1)
        s.clearall("b")
        m.check()
        use(s, rng, "b", 2)
    m.check()
    m.end()


KINDS = ("new", "recorded", "seeded", "swept", "dropped", "tail", "checkpoint")


def moves(sc, tier):
    out = []
    seed = 900
    for kind in KINDS:
        for how in ("construct", "assign", "there and back", "swap", "self"):
            for act in ("source", "target", "none"):
                if act == "target" and how == "construct":
                    continue
                for early in (False, True):
                    for onto in ("new", "checkpoint", "dropped", "swept") if how not in ("construct", "self") else ("new",):
                        seed += 1
                        if tier != "quick" or how == "construct" or seed % 3 == 0 or act == "source" and seed % 2:
                            out.append(H("tape moved", h_move, seed, kind, how, act, early, onto))
    return out


# ---------------------------------------------------------------- new recordings and clearing

def h_newrec(s, seed, n1, n2, mode):
    rng = random.Random(seed)
    s.new()
    inputs(s, 2)
    s.newrec()
    record(s, rng, n1, 2, [2, 3], reuse=0.2)
    if n1:
        s.setder(list(s.o("t").slots)[-1])
        if mode != "unswept":
            s.compute()
            s.checkders()
    if mode == "drop":
        for v in [v for v in s.o("t").slots if v.startswith("y")][::-1]:
            s.unreg(v)
        s.numvars()
    s.newrec()
    s.counts()
    s.numvars()
    s.compute_throws()
    s.checkders()
    record(s, rng, n2, 2, [2, 1], fresh="z", reuse=0.2)
    s.counts()
    s.setder(list(s.o("t").slots)[-1])
    s.compute()
    s.checkders()
    s.finish()


def h_clearall(s, seed, n1, n2, mode):
    rng = random.Random(seed)
    s.new()
    inputs(s, 2)
    s.newrec()
    record(s, rng, n1, 2, [2, 3], reuse=0.2)
    if mode == "swept" and n1:
        s.setder(list(s.o("t").slots)[-1])
        s.compute()
    if mode == "cb":
        s.cb(1, lambda s, t: None, own=True)
    if mode == "holes" and n1 > 2:
        s.unreg("x0")
        s.unreg([v for v in s.o("t").slots][0])
    s.clearall()
    s.counts()
    s.numvars()
    s.throws("DerivativesNotInitialized", "e_compute", s.p("t"))
    a = inputs(s, 2)
    if a != [0, 1]:
        raise Mismatch("clearAll", "after clearAll the first variables get the slots %s" % a)
    s.checkders()
    s.newrec()
    record(s, rng, n2, 2, [2, 1], fresh="z", reuse=0.2)
    s.counts()
    s.numvars()
    s.setder(list(s.o("t").slots)[-1])
    s.compute()
    s.checkders()
    s.finish()


def h_clearder(s, n, times):
    """several outputs from one recording"""
    s.new()
    inputs(s, 2)
    s.newrec()
    record(s, random.Random(n), n, 2, [2, 1, 3], reuse=0)
    for k in range(times):
        s.setder("y%d" % (n - 1 - k))
        s.compute()
        s.checkders()
        s.clearder()
        s.checkders()
        s.compute_throws()
    s.finish()


def h_interleave(s, n):
    """two tapes do not share anything"""
    s.new("t")
    s.new("u")
    inputs(s, 1, "t")
    inputs(s, 2, "u")
    s.newrec("t")
    s.newrec("u")
    for k in range(n):
        s.stmt("y%d" % k, ["x0"] + (["y%d" % (k - 1)] if k else []), "t")
        s.stmt("z%d" % k, ["x1", "x0"], "u")
    s.setder("y%d" % (n - 1), t="t")
    s.setder("z%d" % (n - 1), t="u")
    s.compute("t")
    s.checkders("t")
    s.checkders("u")
    s.compute("u")
    s.checkders("u")
    s.checkders("t")
    s.clearall("t")
    s.checkders("u")
    s.counts("u")
    s.delete("t")
    s.checkders("u")
    s.finish()


def restarts(sc, tier):
    out = []
    seed = 200
    for n1, n2, m in itertools.product((0, 1, 3, 4, 7, 9), (1, 2, 4, 6), ("swept", "unswept", "drop")):
        seed += 1
        if tier != "quick" or seed % 2:
            out.append(H("newRecording after %d statements" % n1, h_newrec, seed, n1, n2, m))
    for n1, n2, m in itertools.product((0, 1, 4, 9), (1, 3, 6), ("swept", "unswept", "cb", "holes")):
        seed += 1
        out.append(H("clearAll after %d statements" % n1, h_clearall, seed, n1, n2, m))
    for n, k in ((1, 1), (3, 2), (6, 4), (9, 3)):
        out.append(H("several sweeps of one recording", h_clearder, n, k))
    for n in (1, 4, 5):
        out.append(H("two tapes side by side", h_interleave, n))
    for n1, n2, how, nest in itertools.product((0, 4), (1, 3), ("newrec", "clearall"), (None, "unswept", "swept")):
        out.append(H("abandoned checkpoints", h_stale, n1, n2, how, nest))
    return out


# ---------------------------------------------------------------- checkpoints

def ext(nin=1):
    """an external function: the callback takes the output adjoint and increments the input adjoints"""
    def act(s, t, ins, out):
        a = s.take(out, t)
        for k in ins:
            s.incr(k, s.fresh() * a, t)
    return act


def gone(s, how, t="t"):
    """the intermediate variables go out of scope; the last one and the inputs stay"""
    names = [v for v in s.o(t).slots if not v.startswith("x")][:-1]
    if how == "newest":
        names = names[::-1]
    elif how == "mixed":
        names = names[1::2] + names[::2]
    for v in names:
        s.unreg(v, t)


def h_ext(s, seed, layout, pos_at=None, how=None, before=0):
    """layout: list of statement counts between external functions; the position is taken behind section pos_at, or
    `before` statements earlier (behind the external function in front of the section, if it has no more)"""
    rng = random.Random(seed)
    s.new()
    inputs(s, 2)
    s.newrec()
    k = 0
    pos = None
    for j, n in enumerate(layout):
        for i in range(n):
            if pos_at == j and i == max(0, n - before):
                pos = s.position()
            live = list(s.o("t").slots)
            s.stmt("y%d" % k, [rng.choice(live), live[-1]])
            k += 1
        if pos_at == j and pos is None:
            pos = s.position()
        if j < len(layout) - 1:
            live = list(s.o("t").slots)
            ins = [s.o("t").slots[live[-1]], s.o("t").slots[rng.choice(live)]]
            out = s.inp("e%d" % j)
            a = ext()
            s.cb(j, (lambda ins, out: lambda s, t: a(s, t, ins, out))(ins, out), own=j % 2 == 0)
    s.counts()
    if how:
        gone(s, how)
    s.setder(list(s.o("t").slots)[-1])
    s.compute(pos=pos)
    s.checkders()
    s.counts()
    if pos is not None:
        # the rest, with the checkpoints in front of the position
        s.compute()
        s.checkders()
        s.counts()
    s.finish()


def nested_cb(ins, out, n, depth, rng, order, scoped):
    """a checkpointed section: replays n statements in a nested recording"""
    def act(s, t):
        p, o = s.T[t]
        a = s.take(out, t)
        x = "c%d" % s.ns
        s.inp(x, t)
        xs = o.slots[x]
        if scoped:
            q = s.M.alloc(64, "global", "nested")
            s.call("e_scopednew", q, p)
            s.enter(o)
        else:
            s.nest(t)
        prev = x
        names = []
        for k in range(n):
            v = "%s_%d" % (x, k)
            s.stmt(v, [prev, x] if k else [x], t)
            names.append(v)
            prev = v
            if depth and k == n // 2:
                # a checkpoint inside the section
                i2 = o.slots[prev]
                e = "%s_e" % x
                o2 = s.inp(e, t)
                names.append(e)
                s.cb(50 + depth, nested_cb([i2], o2, 2, depth - 1, rng, order, scoped), t)
                prev = e
        s.setder(prev, a, t)
        if scoped:
            s.pending.append((t, o.base))
            s.call("e_scopedcompute", q)
            s.pending.pop()
            s.tail(t, o.base)
        else:
            s.compute_cb(t, None)
        s.checkders(t)
        d = s.peek(x, t)
        for k in ins:
            if scoped:
                s.call("e_scopedincr", q, k, s.put(d))
                o.der[k] = o.der.get(k, s.zero) + d
            else:
                s.incr(k, d, t)
        # destroyed newest first, oldest first, or with one in the middle first
        drop = list(reversed(names)) if order == "newest" else names if order == "oldest" else names[1:2] + names[:1] + names[2:]
        for v in drop:
            s.unreg(v, t)
        if scoped:
            s.call("e_scopeddel", q)
            s.leave(o, t)
        else:
            s.unnest(t)
        s.unreg(x, t)
        if order != "newest":
            # variables of the enclosing recording made after the section, and given back
            for k in range(4):
                s.reg("%s_o%d" % (x, k), t)
            for k in range(4):
                s.unreg("%s_o%d" % (x, k), t)
    return act


def h_nested(s, seed, layout, n, depth, scoped, order="newest", how=None):
    rng = random.Random(seed)
    s.new()
    inputs(s, 2)
    if order == "middle":
        # free slots in the enclosing recording
        for v in ("f0", "f1", "f2", "f3"):
            s.reg(v)
        s.unreg("f1")
        s.unreg("f2")
    s.newrec()
    k = 0
    for j, m in enumerate(layout):
        for _ in range(m):
            live = list(s.o("t").slots)
            s.stmt("y%d" % k, [rng.choice(live), live[-1]])
            k += 1
        if j < len(layout) - 1:
            live = list(s.o("t").slots)
            ins = [s.o("t").slots[live[-1]]]
            out = s.inp("e%d" % j)
            s.cb(j, nested_cb(ins, out, n, depth, rng, order, scoped), own=j == 0)
    if how:
        gone(s, how)
    s.setder(list(s.o("t").slots)[-1])
    s.compute()
    s.checkders()
    s.counts()
    # the tape is usable again
    s.newrec()
    s.counts()
    for v in [v for v in s.o("t").slots if not v.startswith("x")][::-1]:
        s.unreg(v)
    record(s, rng, 3, 2, [2], fresh="w", reuse=0)
    s.setder("w2")
    s.compute()
    s.checkders()
    s.finish()


def h_shared(s, reps, gap):
    """one callback object inserted several times"""
    rng = random.Random(reps)
    s.new()
    inputs(s, 1)
    s.newrec()
    prev = "x0"
    a = ext()
    for k in range(reps):
        for g in range(gap):
            s.stmt("y%d_%d" % (k, g), [prev])
            prev = "y%d_%d" % (k, g)
        i = s.o("t").slots[prev]
        prev = "e%d" % k
        o = s.inp(prev)
        s.cb(0, (lambda i, o: lambda s, t: a(s, t, [i], o))(i, o), own=True)
    s.setder(prev)
    s.compute()
    s.checkders()
    s.finish()


def h_infext(s, n):
    """an infinite adjoint taken by external functions; the output is used again afterwards"""
    s.new()
    inputs(s, 2)
    s.newrec()
    x = s.o("t").slots["x0"]
    a = ext()
    for j in range(n):
        o = s.inp("e%d" % j)
        s.cb(j, (lambda o: lambda s, t: (a(s, t, [x], o), a(s, t, [x], o)))(o))
        s.stmt("y%d" % j, [("e%d" % j, inf()), "x1"])
    s.setder("y%d" % (n - 1))
    s.setder("e0", inf())
    s.compute()
    s.checkders()
    s.finish()


def h_stale(s, n1, n2, how, nested):
    """checkpoints of an abandoned recording are never called"""
    s.new()
    inputs(s, 2)
    s.newrec()
    record(s, random.Random(n1 * 7 + n2), n1, 2, [2], reuse=0)
    a = ext()
    for j in range(2):
        out = s.inp("e%d" % j)
        s.cb(j, (lambda out: lambda s, t: a(s, t, [0], out))(out), own=j == 0)
    if nested:
        s.stmt("w", [list(s.o("t").slots)[-1]])
        if nested == "swept":
            s.setder("w")
            s.compute()
            s.cb(3, lambda s, t: None)
    if how == "resetto":
        pos = n1
        for v in [v for v in s.o("t").slots if v not in ("x0", "x1") and not v.startswith("y")][::-1]:
            s.unreg(v)
        s.resetto(pos)
        s.clearder()
    elif how == "newrec":
        s.newrec()
    else:
        s.clearall()
        inputs(s, 2)
        s.newrec()
    s.counts()
    record(s, random.Random(5), n2, 2, [1, 2], fresh="z", reuse=0.2)
    b = s.inp("f")
    if n2 > 1:
        s.cb(7, lambda s, t: a(s, t, [0, 1], b))
        s.stmt("last", ["f", "x0"])
    s.setder(list(s.o("t").slots)[-1])
    s.compute()
    s.checkders()
    s.counts()
    if how != "clearall":
        s.newrec()
        s.stmt("again", ["x0", "x1"])
        s.setder("again")
        s.compute()
        s.checkders()
    s.finish()


def h_cbreset(s, n1, n2, after):
    """resetTo a position drops the callbacks behind it, and only those"""
    s.new()
    inputs(s, 1)
    s.newrec()
    record(s, random.Random(3), n1, 1, [1], reuse=0)
    a = ext()
    x = s.o("t").slots["x0"]
    o1 = s.inp("e1")
    s.cb(1, lambda s, t: a(s, t, [x], o1))
    pos = len(s.o("t").stmts) - (1 if after == "before" else 0)
    record(s, random.Random(4), n2, 1, [2], fresh="z", reuse=0)
    o2 = s.inp("e2")
    s.cb(2, lambda s, t: a(s, t, [x], o2))
    record(s, random.Random(5), 1, 1, [2], fresh="w", reuse=0)
    s.resetto(pos)
    s.counts()
    s.cbact[2].pop()
    if after == "before":
        s.cbact[1].pop()
    s.setder("e1")
    s.setder("x0")
    s.compute()
    s.checkders()
    s.finish()


def h_owned(s, n):
    """callbacks pushed to the tape are destroyed once, with it, also after clearAll and newRecording"""
    s.new()
    for i in range(n):
        c = s.cbs[i] = s.call("e_cbnew", i)
        s.call("e_pushcb", s.p("t"), c)
        s.o("t").owned.append(i)
        if s.call("e_lastcb", s.p("t")) != c:
            raise Mismatch("ownership", "getLastCallback is not the callback pushed last")
        if s.call("e_ncb", s.p("t")) != i + 1 or not s.call("e_havecb", s.p("t")):
            raise Mismatch("ownership", "getNumCallbacks or haveCallbacks does not count the callback pushed")
    if n > 1:
        s.call("e_popcb", s.p("t"))
        s.o("t").owned.pop()
        s.call("e_cbdelete", s.cbs[n - 1])
        if s.call("e_ncb", s.p("t")) != n - 1 or s.call("e_lastcb", s.p("t")) != s.cbs[n - 2]:
            raise Mismatch("ownership", "popCallback does not remove the callback pushed last")
    if n == 0:
        s.throws("OutOfRange", "e_lastcb", s.p("t"))
        s.throws("OutOfRange", "e_popcb", s.p("t"))
        if s.call("e_havecb", s.p("t")):
            raise Mismatch("ownership", "haveCallbacks without callbacks")
    s.newrec()
    if s.call("e_ncb", s.p("t")) != len(s.o("t").owned):
        raise Mismatch("ownership", "newRecording changes the callbacks owned by the tape")
    s.finish()


def checkpoints(sc, tier):
    out = []
    seed = 300
    for layout in ((1, 1), (0, 0), (2, 3), (3, 4), (4, 4), (5, 1, 2), (1, 1, 1, 1), (0, 3, 0), (4, 0, 4), (3, 8, 1), (7, 2), (2, 2, 2, 2, 2)):
        seed += 1
        out.append(H("external functions between statements", h_ext, seed, layout))
        for k in range(len(layout)):
            out.append(H("external functions, rolled back to a position", h_ext, seed, layout, k))
        for how in ("newest", "oldest", "mixed"):
            out.append(H("external functions, intermediate variables gone", h_ext, seed, layout, None, how))
    for layout in ((1, 1), (0, 0), (3, 4), (2, 0, 1), (4, 4, 4)):
        for n in (1, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 8):
            for depth in (0, 1) if tier == "quick" else (0, 1, 2):
                for scoped in (False, True):
                    seed += 1
                    for order in ("newest", "oldest", "middle"):
                        if tier != "quick" or order == "newest" or (seed + (order == "oldest")) % 2:
                            out.append(H("checkpointed sections", h_nested, seed, layout, n, depth, scoped, order, (None, "newest", "oldest", "mixed")[seed % 4]))
    for n1, n2, how, nest in itertools.product((0, 3), (1, 3), ("newrec", "clearall", "resetto"), (None, "unswept", "swept")):
        if how != "resetto" or nest != "swept":
            out.append(H("abandoned checkpoints", h_stale, n1, n2, how, nest))
    for r, g in itertools.product((1, 2, 4), (0, 1, 3, 4)):
        out.append(H("one callback object for several checkpoints", h_shared, r, g))
    for n1, n2, a in itertools.product((0, 2, 3), (0, 1, 4), ("behind", "before")):
        out.append(H("resetTo between checkpoints", h_cbreset, n1, n2, a))
    if not sc.startswith("FReal"):
        for n in (1, 2, 3):
            out.append(H("infinite output adjoints", h_infext, n))
    for n in range(0, 4):
        out.append(H("callbacks owned by the tape", h_owned, n))
    return out
