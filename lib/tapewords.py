"""Every order of the tape's operations: all client words over the alphabet below up to a length, from several
starting recordings.  Shared prefixes are analysed once; the machine state and the reference state are forked."""
import copy, random
import absint
from tapesim import *
from tapehist import inputs

ALPHABET = {
    "new": "a new variable depending on the two newest",
    "assign": "the oldest variable is assigned from the two newest",
    "drop": "the newest variable is unregistered",
    "dropmid": "a variable in the middle is unregistered",
    "seed": "the derivative of the newest variable is set",
    "seed0": "the derivative of the oldest variable is set",
    "compute": "computeAdjoints",
    "mark": "getPosition",
    "to": "computeAdjointsTo(position)",
    "reset": "resetTo(position)",
    "back": "clearDerivativesAfter(position), later variables unregistered, resetTo(position)",
    "newrec": "newRecording",
    "clear": "clearDerivatives",
    "clearall": "clearAll, all variables registered again",
}
GROUP = {"to": "P13", "reset": "P13", "back": "P13", "newrec": "P14", "clear": "P14", "clearall": "P14"}


class St:
    """what the client remembers"""

    def __init__(self):
        self.mark, self.keep, self.n = None, None, 0


def ok(s, c, op):
    o = s.o("t")
    live = list(o.slots)
    if op in ("drop", "dropmid"):
        return len(live) > 2
    if op in ("to", "reset", "back"):
        return c.mark is not None and c.mark <= len(o.stmts)
    if op == "mark":
        return c.mark != len(o.stmts)
    if op == "clear":
        return o.der is not None
    return len(live) >= 2 or op in ("newrec", "clearall", "compute")


def step(s, c, op):
    o = s.o("t")
    live = list(o.slots)
    if op == "new":
        c.n += 1
        s.stmt("v%d" % c.n, live[-2:], style=c.n % 3)
    elif op == "assign":
        s.stmt(live[0], live[-2:])
    elif op == "drop":
        s.unreg(live[-1])
    elif op == "dropmid":
        s.unreg(live[len(live) // 2 - 1])
    elif op == "seed":
        s.setder(live[-1])
    elif op == "seed0":
        s.setder(live[0])
    elif op == "compute":
        if o.der is None:
            s.compute_throws()
        else:
            s.compute()
    elif op == "mark":
        got = s.call("e_getpos", s.p("t"))
        if got != len(o.stmts):
            raise Mismatch("counts", "getPosition gives %d, %d statements recorded" % (got, len(o.stmts)))
        c.mark, c.keep = got, list(live)
    elif op == "to":
        s.compute(pos=c.mark)
    elif op == "reset":
        s.resetto(c.mark)
    elif op == "back":
        s.clearafter(c.mark, [v for v in c.keep if v in o.slots])
        for v in [v for v in live if v not in c.keep][::-1]:
            s.unreg(v)
        s.resetto(c.mark)
    elif op == "newrec":
        s.newrec()
        c.mark = None
    elif op == "clear":
        s.clearder()
    elif op == "clearall":
        s.clearall()
        c.mark = None
        for v in live:
            s.inp(v)


def check(s):
    """counts and all derivatives; leaves no trace"""
    snap = s.M.snapshot()
    s.counts()
    s.numvars()
    p, o = s.T["t"]
    for v, k in o.slots.items():
        s.put(s.fresh("junk"))
        s.call("e_der", p, k, s.buf)
        got, want = s.get(), (o.der or {}).get(k, s.zero)
        if not got.same(want):
            raise Mismatch("adjoint", "the derivative of %s (slot %d) is %r, it has to be %r" % (v, k, got, want))
    # the tape can always be given back in full
    s.call("e_dtor", p)
    left = [r for r in s.M.leaks() if r.id not in s.base]
    if left:
        raise Mismatch("leak", "%d allocation(s) are never released, e.g. a %s" % (len(left), left[0].what()))
    s.M.restore(snap)


def fork(s):
    p, o = s.T["t"]
    n = TapeObj()
    n.slots, n.stmts, n.der = dict(o.slots), list(o.stmts), None if o.der is None else dict(o.der)
    n.high, n.base = o.high, o.base
    return n


def start(s, nin, nst, rec):
    s.reset()
    s.new()
    inputs(s, nin)
    if rec:
        s.newrec()
    c = St()
    for _ in range(nst):
        step(s, c, "new")
    return c


def explore(s, pre, length, first=None, ops=None):
    """all words; returns (violations, stats)"""
    from tapesim import at
    viol, stats = [], {"words": 0, "calls": 0, "open": 0}
    ops = list(ops or ALPHABET)
    seen = set()

    def rec(c, word, left, only):
        for op in ([only] if only else ops):
            if not ok(s, c, op):
                continue
            if op == "mark" and left == 1:
                continue
            snap, o0, ns = s.M.snapshot(), fork(s), s.ns
            c2 = copy.copy(c)
            w = word + (op,)
            stats["words"] += 1
            try:
                step(s, c2, op)
                check(s)
                good = True
            except Mismatch as e:
                good = False
                viol.append((w, e.rule, at(getattr(e, "where", None))[0], e.msg))
            except absint.Viol as e:
                good = False
                a, fn = at(getattr(e, "where", None))
                viol.append((w, e.kind, "%s (%s)" % (a, fn), e.msg))
            except absint.Unsupported as e:
                good = False
                stats["open"] += 1
                stats["why"] = "%s: %s" % (at(getattr(e, "where", None))[0], e)
            if good and left > 1:
                rec(c2, w, left - 1, None)
            s.M.restore(snap)
            s.T["t"] = (s.T["t"][0], o0)
            s.ns = ns
            if len(viol) > 20:
                return
    try:
        c = start(s, *pre)
    except (Mismatch, absint.Viol) as e:
        a, fn = at(getattr(e, "where", None))
        viol.append((("set-up",), getattr(e, "rule", None) or e.kind, a, e.msg))
        return viol, stats
    except absint.Unsupported as e:
        return viol, {"words": 1, "calls": 0, "open": 1, "why": "%s: %s" % (at(getattr(e, "where", None))[0], e)}
    rec(c, (), length, first)
    return viol, stats
