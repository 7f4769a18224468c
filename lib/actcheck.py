"""Activation of tapes on two threads: all abstract states of two tapes and two threads reachable through construction, activation,
moves and destruction, computed to a fixpoint; and the absence of shared mutable state."""
import absint
from tapesim import *

NAMES = "AB"


class St:
    """reference: which tape is active on each thread; which tapes exist, which have been moved from, which hold a recording"""
    __slots__ = ("act", "live", "moved", "full")

    def __init__(self, act=(None, None), live=frozenset(), moved=frozenset(), full=frozenset()):
        self.act, self.live, self.moved, self.full = act, live, moved, full

    def key(self):
        return self.act, tuple(sorted(self.live)), tuple(sorted(self.moved)), tuple(sorted(self.full))

    def transfer(self, x, y):
        """the recording of y is handed over to x"""
        f = self.full - {x, y}
        return St(self.act, self.live | {x}, (self.moved | {y}) - {x}, f | {x} if y in self.full else f)

    def setact(self, th, x):
        a = list(self.act)
        a[th] = x
        return St(tuple(a), self.live, self.moved, self.full)


def ops(st, names=NAMES, threads=(0, 1), fill=False):
    """a third tape is there to be active or not: it is neither moved nor recorded on"""
    out = []
    for th in threads:
        for x in names:
            movable = NAMES if x in NAMES else ""
            if x not in st.live:
                out += [("new", x, th, 1), ("new", x, th, 0)]
                for y in movable:
                    if y in st.live and y not in st.moved and st.act[1 - th] != y:
                        out.append(("move-construct", x, th, y))
            else:
                if st.act[1 - th] != x:
                    out.append(("destroy", x, th, 0))
                    for y in movable:
                        if y in st.live and y not in st.moved and st.act[1 - th] != y:
                            out.append(("move-assign", x, th, y))
                out.append(("deactivate", x, th, 0))
                if x not in st.moved and st.act[1 - th] != x:
                    out += [("activate", x, th, 0), ("setActive", x, th, 0)]
                if fill and movable and x not in st.moved and x not in st.full:
                    out.append(("record", x, th, 0))
        out.append(("deactivateAll", "", th, 0))
        if not fill:
            out.append(("compute", "", th, 0))
    return out


def roots(s, ptr):
    return [ptr[x] for x in NAMES] + [s.M.tls[k] for k in sorted(s.M.tls)]


def step(s, st, ptr, op):
    """performs one operation; returns the reference state after it"""
    kind, x, th, arg = op
    M = s.M
    M.thread = th
    act = st.act[th]

    def call(name, *a):
        s.lastcall = name
        return M.call(name, *a)

    def ok(r):
        if r[0] != "ok":
            raise Mismatch("throw", "throws %s" % dem_ti(r[1]))
        return r[1]

    def exclusive(r):
        """activation of x: another active tape is refused"""
        if act is None:
            ok(r)
            return True
        if r[0] != "ok":
            if "TapeAlreadyActive" not in r[1]:
                raise Mismatch("throw", "throws %s instead of TapeAlreadyActive" % dem_ti(r[1]))
            return act == x
        if act != x:
            raise Mismatch("exclusive", "a tape is activated while another one is active on this thread, without TapeAlreadyActive")
        return True
    if kind == "new":
        n0 = len(M.leaks())
        r = call("e_ctor", ptr[x], arg)
        if arg and act is not None:
            if r[0] == "ok":
                raise Mismatch("exclusive", "a tape is constructed active while another one is active on this thread, without TapeAlreadyActive")
            exclusive(r)
            if len(M.leaks()) != n0:
                raise Mismatch("leak", "a tape that cannot be activated leaves %d allocation(s) behind" % (len(M.leaks()) - n0))
            return st
        ok(r)
        st = St(st.act, st.live | {x}, st.moved, st.full)
        return st.setact(th, x) if arg else st
    if kind in ("activate", "setActive"):
        if exclusive(call("e_" + kind.lower(), ptr[x])):
            return st.setact(th, x)
        return st
    if kind == "deactivate":
        ok(call("e_deactivate", ptr[x]))
        return st.setact(th, None) if act == x else st
    if kind == "deactivateAll":
        ok(call("e_deactivateall"))
        return st.setact(th, None)
    if kind == "destroy":
        ok(call("e_dtor", ptr[x]))
        st = st.setact(th, None) if act == x else st
        return St(st.act, st.live - {x}, st.moved - {x}, st.full - {x})
    if kind == "record":
        # a recording with variables, statements, adjoints and checkpoints, one of them with a callback owned by the tape
        p = ptr[x]
        slots = [ok(call("e_reg", p)) for _ in range(4)]
        ok(call("e_newrec", p))
        for i in (2, 3):
            s.put(s.const(3))
            ok(call("e_rhs", p, s.buf, slots[i - 1]))
            ok(call("e_lhs", p, slots[i]))
            cb = s.shared
            if i == 2:
                cb = ok(call("e_cbnew", i))
                ok(call("e_pushcb", p, cb))
            ok(call("e_insertcb", p, cb))
        ok(call("e_unreg", p, slots[1]))
        s.put(s.const(1))
        ok(call("e_setder", p, slots[3], s.buf))
        return St(st.act, st.live, st.moved, st.full | {x})
    if kind == "move-construct":
        ok(call("e_mctor", ptr[x], ptr[arg]))
        st = st.transfer(x, arg)
        return st.setact(th, x) if act == arg else st
    if kind == "move-assign":
        ok(call("e_massign", ptr[x], ptr[arg]))
        if x == arg:
            return st
        st = st.transfer(x, arg)
        return st.setact(th, x) if act == arg else st.setact(th, None) if act == x else st
    if kind == "compute":
        # variables made and used on this thread are recorded on its active tape, or not at all
        asz = s.call("e_asize")
        a, b = M.alloc(asz, "global", "variable"), M.alloc(asz, "global", "variable")
        s.put(s.const(2))
        ok(call("e_actor", a, s.buf))
        if act is not None:
            n0 = ok(call("e_nstmts", ptr[act]))
            ok(call("e_areg", ptr[act], a))
        ok(call("e_amulnew", b, a, a))
        if bool(ok(call("e_arec", b))) != (act is not None):
            raise Mismatch("recording", "a product of variables is %s" % ("not recorded on the active tape" if act else "recorded without an active tape"))
        if act is not None:
            n1 = ok(call("e_nstmts", ptr[act]))
            if n1 != n0 + 2:
                raise Mismatch("recording", "registering an input and computing a product adds %d statements to the thread's active tape, not 2" % (n1 - n0))
        ok(call("e_adtor", b))
        ok(call("e_adtor", a))
        if act is not None:
            ok(call("e_clearall", ptr[act]))
        M.regs.pop(a >> absint.SH)
        M.regs.pop(b >> absint.SH)
        return st
    raise AssertionError(kind)


def observe(s, st, ptr):
    M = s.M
    for th in (0, 1):
        M.thread = th
        r = M.call("e_getactive")
        want = ptr[st.act[th]] if st.act[th] else 0
        if r[0] != "ok" or r[1] != want:
            raise Mismatch("active", "getActive on thread %d does not give %s" % (th, "tape " + st.act[th] if st.act[th] else "a null pointer"))
        for x in st.live:
            r = M.call("e_isactive", ptr[x])
            if r[0] != "ok" or bool(r[1]) != (st.act[th] == x):
                raise Mismatch("active", "isActive of tape %s on thread %d is %s" % (x, th, "true" if r[1] else "false"))
    M.thread = 0


def actual(s, st, ptr):
    """the reference state with the tapes that really are active"""
    for th in (0, 1):
        s.M.thread = th
        r = s.M.call("e_getactive")
        x = [n for n in ptr if r[0] == "ok" and ptr[n] == r[1]]
        if r[0] != "ok" or r[1] and not (x and x[0] in st.live):
            s.M.thread = 0
            return None
        st = st.setact(th, x[0] if x else None)
    s.M.thread = 0
    return st


def explore(s, names=NAMES, threads=(0, 1), fill=False, kinds=None, maxstates=3000):
    """kinds: only these violations are of interest, the exploration goes on behind others from the states that really result"""
    s.reset()
    M = s.M
    ptr = {x: M.alloc(s.tsize, "global", "tape " + x) for x in names}
    if fill:
        s.shared = s.call("e_cbnew", 3)
    st = St()
    observe(s, st, ptr)

    def key(st):
        return st.key(), absint.canonical(M, [ptr[x] for x in names if x in st.live] + [M.tls[k] for k in sorted(M.tls)])
    seen = {key(st)}
    work = [(M.snapshot(), st, ())]
    viol, stats = [], {"states": 1, "transitions": 0, "complete": True}
    while work:
        snap, st, hist = work.pop(0)
        for op in ops(st, names, threads, fill):
            M.restore(snap)
            stats["transitions"] += 1
            h = hist + (op,)
            try:
                # everything an operation does not name stays as it is
                kind, x, th, arg = op
                act = st.act[th]
                rest = [y for y in names if y in st.live and y not in st.moved and y != x and y != arg and not (kind == "compute" and y == act)]
                before = absint.canonical(M, [ptr[y] for y in rest])
                s.cbdel.clear()
                n = step(s, st, ptr, op)
                owned = [2] if x in st.full and (kind == "destroy" or kind == "move-assign" and x != arg) else []
                if sorted(s.cbdel) != owned:
                    raise Mismatch("ownership", "callbacks %s are destroyed, %s have to be" % (sorted(s.cbdel), owned))
                M.thread = 0
                if absint.canonical(M, [ptr[y] for y in rest]) != before:
                    raise Mismatch("isolation", "an operation that does not involve tape %s changes it" % rest[0])
                snap2 = M.snapshot()
                try:
                    observe(s, n, ptr)
                except Mismatch as e:
                    M.restore(snap2)
                    if not kinds or e.rule in kinds:
                        raise
                    stats["other"] = stats.get("other", 0) + 1
                    n = actual(s, n, ptr)
                    if n is None:
                        continue
            except Mismatch as e:
                if kinds and e.rule not in kinds:
                    stats["other"] = stats.get("other", 0) + 1
                    continue
                viol.append((h, e.rule, at(getattr(e, "where", None))[0], e.msg))
                continue
            except absint.Viol as e:
                if kinds and e.kind not in kinds:
                    stats["other"] = stats.get("other", 0) + 1
                    continue
                w, fn = at(getattr(e, "where", None))
                viol.append((h, e.kind, "%s (%s)" % (w, fn), e.msg))
                continue
            M.restore(snap2)
            k = key(n)
            if k in seen:
                continue
            if len(seen) >= maxstates:
                stats["complete"] = False
                continue
            seen.add(k)
            work.append((snap2, n, h))
        if len(viol) > 5:
            break
    stats["states"] = len(seen)
    return viol, stats
