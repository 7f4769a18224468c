"""P12 - P15, P18: the tape under every order of its operations, in an abstract semantics of its compiled source."""
import re
import tapecheck
from common import *

BASE = ("The tape's member functions are compiled and translated into transfer functions over an abstract state: memory as exact objects "
        "(bounds, lifetime, initialisation, ownership), scalars as polynomials over symbolic multipliers and seeds, so that a result stands for all "
        "values at once. ")
STD = [("double", 3, "default"), ("double", 4, "reuse"), ("FReal<double>", 2, "reuse")]
FULL = STD + [("float", 3, "reuse"), ("FReal<double>", 3, "default"), ("double", 0, "default"), ("double", 1, "default"), ("double", 2, "reuse"), ("FReal<float>", 3, "default")]
SWEEP = ("new", "assign", "drop", "dropmid", "seed", "seed0", "compute", "clear")
POS = ("new", "assign", "drop", "seed", "compute", "mark", "to", "reset", "back")
ALL = ("new", "assign", "drop", "dropmid", "seed", "seed0", "compute", "mark", "to", "reset", "back", "newrec", "clear", "clearall")


def enough(rep, n, what="client histories"):
    rep.need(n, what)
    if not rep.viol and len(rep.unresolved) * 5 > rep.analysed.get("client histories", 1):
        raise Broken("too many histories cannot be interpreted: %s" % rep.unresolved[:3])


def sweep(rep, tier):
    rep.rule(BASE + "After every client history the derivative of every variable must be the polynomial that reverse accumulation over the recorded "
             "statements gives; sweeps without derivatives set are refused; every access stays inside live memory.")
    q = tier == "quick"
    tapecheck.run(rep, tier, ["sweeps"], STD + [("double", 0, "default")] if q else FULL,
                  [((2, 0, True), 4 if q else 5, SWEEP, None), ((2, 2, True), 3 if q else 4, SWEEP, None), ((2, 3, False), 3 if q else 4, SWEEP, None)],
                  STD[:2] if q else STD)
    enough(rep, 150)


def positions(rep, tier):
    rep.rule(BASE + "Rolling back to a position, resetting to it and clearing derivatives behind it must leave exactly the statements, variables and "
             "adjoints that the recorded history up to that position defines, in every order of these operations.")
    q = tier == "quick"
    tapecheck.run(rep, tier, ["positions"], STD[:2] + [("FReal<double>", 3, "default")] if q else FULL,
                  [((2, 2, True), 3 if q else 4, POS, None), ((2, 3, True), 4, POS, None), ((3, 1, False), 3 if q else 4, POS, None)], STD[:2] if q else STD)
    enough(rep, 150)


def restarts(rep, tier):
    rep.rule(BASE + "After newRecording no statement or derivative of an earlier recording takes part, registered variables stay registered; after "
             "clearDerivatives all derivatives are zero and a sweep is refused; after clearAll the tape is as new.")
    q = tier == "quick"
    tapecheck.run(rep, tier, ["restarts"], STD if q else FULL,
                  [((2, 2, True), 3 if q else 4, ALL, None), ((2, 3, False), 3, ALL, None)], STD[:2] if q else STD)
    enough(rep, 150)


def checkpoints(rep, tier):
    rep.rule(BASE + "Checkpoint callbacks must be called once each, in reverse order of insertion, after exactly the statements behind them and before "
             "those in front of them, with the adjoints accumulated so far; nested recordings must leave the enclosing recording as it was; callbacks "
             "owned by the tape are destroyed exactly once.")
    q = tier == "quick"
    tapecheck.run(rep, tier, ["checkpoints"], STD[:2] + [("FReal<double>", 2, "default")] if q else FULL)
    enough(rep, 300)


def moves(rep, tier):
    rep.rule(BASE + "A tape constructed from or assigned another one has its recording, derivatives, variables, free slots and callbacks, and is active "
             "if that one was; everything the target held before is released once; the tape moved from can be destroyed or assigned to at any time; "
             "nothing is shared with it.")
    tapecheck.run(rep, tier, ["moves"], STD if tier == "quick" else FULL)
    enough(rep, 300)


def refused(rep, tier):
    rep.rule(BASE + "After every operation of a client history everything the tape must refuse in that state is requested: derivatives of slots that do not "
             "exist, adjoints without derivatives set, callbacks that were never pushed, derivatives of variables without an active tape, derivatives "
             "of a constant tape that are not stored (with assertions on). Each request must end in the documented exception, and the history must go on "
             "as if it had not been made. Exceptions of checkpoint callbacks reach the caller and leave a tape that can be destroyed or cleared.")
    q = tier == "quick"
    P = lambda *s: s + ("poke",)
    specs = [P("double", 3, "default"), P("double", 4, "reuse"), P("FReal<double>", 2, "reusedbg"), P("double", 2, "ndebug")]
    tapecheck.run(rep, tier, ["all_families"], specs[:3] if q else specs,
                  [((2, 2, True), 2 if q else 3, ALL, None), ((2, 3, False), 2 if q else 3, ALL, None)], specs[:2] if q else specs)
    enough(rep, 300)


def slotjob(job):
    import slotcheck, par
    spec, n, kw = job
    s = tapecheck.sim(spec)
    par.ITEM = 600
    try:
        v, st = par.guarded(lambda: slotcheck.explore(s, n, spec[2] == "reuse", **kw))
        return job, [(h, k, tapecheck.where(s, a), m) for h, k, a, m in v], st
    except par.Timeout:
        return job, [], {"states": 0, "transitions": 0, "complete": False}


def slots(rep, tier):
    import multiprocessing, tapesim
    rep.rule("The set of abstract tape states (free list, range list, counters, pointers; objects renamed canonically) reachable by registering and "
             "unregistering variables is computed to its least fixpoint, with at most N variables registered at a time and no bound on the number or "
             "order of operations. In every state: a slot handed out belongs to no live variable, counts agree with the live variables, with slot "
             "re-use the free slots kept are exactly the gaps below the highest live slot and no new slot is opened while a gap exists, each live slot "
             "has a derivative, every iterator and pointer followed is valid.")
    q = tier == "quick"
    R, D, F = ("double", 3, "reuse"), ("double", 3, "default"), ("FReal<double>", 2, "reuse")
    X = ("newRecording", "clearAll")
    jobs = [(R, 6 if q else 8, {}), (R, 4 if q else 5, {"extra": X}), (D, 5, {"cap": 8}), (D, 4, {"cap": 6, "extra": X}), (F, 5, {}),
            (R, 3 if q else 4, {"marked": (2, 1), "extra": ("newRecording", "rollback", "resetTo")}),
            (R, 3 if q else 4, {"marked": (3, 0), "extra": ("rollback", "resetTo")}),
            (D, 3, {"marked": (2, 0), "extra": ("newRecording", "rollback", "resetTo"), "cap": 5})]
    tapesim.modules([("tape",) + s for s in dict.fromkeys(j[0] for j in jobs)])
    with multiprocessing.get_context("fork").Pool(8) as pool:
        res = list(pool.imap_unordered(slotjob, jobs, chunksize=1))
    for (spec, n, kw), v, st in res:
        rep.count("abstract tape states", st["states"])
        rep.count("transitions", st["transitions"])
        rep.obl += st["transitions"]
        rep.ok += st["transitions"] - len(v)
        rep.notes.append("%s, at most %d variables, %s: %d states, %d transitions%s" % (tapecheck.cname(spec), n, kw, st["states"], st["transitions"],
                                                                                    "" if st["complete"] else " (not complete)"))
        if not st["complete"]:
            rep.unresolve("fixpoint not reached for %s, %d variables" % (tapecheck.cname(spec), n))
        for h, k, a, m in v:
            rep.violation("%s|%s" % (k, re.sub(r":\d+", "", a)), a, "%s [operations: %s; %s]" % (m, " ".join(":".join(map(str, x)) for x in h), tapecheck.cname(spec)))
    rep.need(200, "abstract tape states")
