"""Slot allocation: all abstract tape states reachable by registering and unregistering at most N variables
at a time, in any order and number, computed to a fixpoint."""
import absint
from tapesim import *


def state_key(s, live):
    return absint.canonical(s.M, [s.p("t")]), tuple(sorted(live))


def spec_holes(live):
    """free slots and gaps below the highest live slot"""
    if not live:
        return 0, 0
    top = max(live)
    free = [k for k in range(top) if k not in live]
    gaps = sum(1 for i, k in enumerate(free) if i == 0 or free[i - 1] != k - 1)
    return len(free), gaps


def explore(s, n, reuse, maxstates=6000, extra=(), cap=None, marked=None):
    """yields violations (history, kind, where, message); returns the number of states and transitions"""
    s.reset()
    s.new()
    M = s.M
    p = s.p("t")
    live0 = frozenset()
    strict = True
    if marked is not None:
        # a position taken after variables were registered and the last of them (or an older one) was assigned
        n0, lhs = marked
        for i in range(n0):
            k = s.call("e_reg", p)
            live0 |= {k}
        s.call("e_newrec", p)
        for k in sorted(live0):
            s.call("e_lhs", p, k)
        s.call("e_lhs", p, lhs)
        pos = s.call("e_getpos", p)
        strict = False
    start = (M.snapshot(), live0, ())
    seen = {state_key(s, live0)}
    work = [start]
    stats = {"states": 1, "transitions": 0, "complete": True}
    viol = []
    while work:
        snap, live, hist = work.pop(0)
        ops = []
        if len(live) < n:
            ops.append(("register",))
        ops += [("unregister", k) for k in sorted(live)]
        ops += [(e,) for e in extra]
        if len([1 for x in hist if x[0] not in ("register", "unregister")]) >= 2:
            ops = [o for o in ops if o[0] in ("register", "unregister")]
        for op in ops:
            M.restore(snap)
            h = hist + (op,)
            stats["transitions"] += 1
            try:
                if op[0] == "register":
                    k = s.call("e_reg", p)
                    if k in live:
                        raise Mismatch("alias", "slot %d is handed out although a live variable holds it" % k)
                    if k == IS64:
                        raise Mismatch("alias", "the invalid slot is handed out")
                    if cap is not None and k >= cap:
                        continue
                    if reuse and strict:
                        if k > len(live):
                            peak = max([len([1 for x in h[:i + 1] if x[0] == "register"]) - len([1 for x in h[:i + 1] if x[0] == "unregister"])
                                        for i in range(len(h))])
                            if k >= peak:
                                raise Mismatch("growth", "slot %d is handed out, %d variables were ever live at a time" % (k, peak))
                    elif not reuse and k < (max(live) + 1 if live else 0):
                        raise Mismatch("order", "slot %d is handed out below the live slot %d" % (k, max(live)))
                    nl = live | {k}
                elif op[0] == "unregister":
                    s.call("e_unreg", p, op[1])
                    nl = live - {op[1]}
                elif op[0] == "newRecording":
                    s.call("e_newrec", p)
                    nl = live
                elif op[0] == "rollback":
                    # the documented order of a path-wise computation
                    s.call("e_clearafter", p, pos)
                    s.call("e_resetto", p, pos)
                    nl = live
                elif op[0] == "resetTo":
                    s.call("e_lhs", p, min(live) if live else 0)
                    s.call("e_resetto", p, pos)
                    nl = live
                elif op[0] == "clearAll":
                    s.call("e_clearall", p)
                    nl = frozenset()
                    h = ()
                got = s.call("e_nvars", p)
                if got != len(nl):
                    raise Mismatch("count", "getNumVariables gives %d with %d registered variables" % (got, len(nl)))
                if reuse and strict:
                    a, b = s.call("e_nreuse", p), s.call("e_nsect", p)
                    wa, wb = spec_holes(nl)
                    if a != wa or b != wb:
                        raise Mismatch("holes", "%d free slots in %d ranges are kept, there are %d in %d below the highest live slot" % (a, b, wa, wb))
                    # every live slot has a derivative, and no other live variable shares it
                snap2 = M.snapshot()
                for k in (nl if strict else ()):
                    s.call("e_der", p, k, s.buf)
                M.restore(snap2)
            except Mismatch as e:
                viol.append((h, e.rule, at(getattr(e, "where", None))[0], e.msg))
                continue
            except absint.Viol as e:
                w, fn = at(getattr(e, "where", None))
                viol.append((h, e.kind, "%s (%s)" % (w, fn), e.msg))
                continue
            key = state_key(s, nl)
            if key in seen:
                continue
            if len(seen) >= maxstates:
                stats["complete"] = False
                continue
            seen.add(key)
            work.append((snap2, nl, h))
        if len(viol) > 5:
            break
    stats["states"] = len(seen)
    return viol, stats
