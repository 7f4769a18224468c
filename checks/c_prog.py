"""P10, P21: whole-program rules - thread isolation and activation, exceptions and functions that may not throw."""
import re
import cg, tapecheck, tapesim, par
from common import *

MORE = {"names": "ABC", "threads": (0,), "fill": True}
SPECS = [("double", 3, "default"), ("FReal<double>", 2, "reuse")]


def actjob(job):
    import actcheck
    spec, kw = job
    s = tapecheck.sim(spec)
    par.ITEM = 600
    try:
        v, st = par.guarded(lambda: actcheck.explore(s, **kw))
        return job, [(h, k, tapecheck.where(s, a), m) for h, k, a, m in v], st
    except par.Timeout:
        return job, [], {"states": 0, "transitions": 0, "complete": False}


def states(rep, pool, kinds=None):
    for (spec, kw), v, st in pool:
        rep.count("abstract states of two tapes and two threads" if not kw.get('fill') else "abstract states of three tapes with and without recordings", st["states"])
        rep.count("transitions", st["transitions"])
        rep.obl += st["transitions"]
        rep.ok += st["transitions"] - len(v)
        rep.notes.append("%s: %d states, %d transitions, fixpoint %s" % (tapecheck.cname(spec), st["states"], st["transitions"],
                                                                         "reached" if st["complete"] else "not reached"))
        if not st["complete"]:
            rep.unresolve("fixpoint not reached for %s" % tapecheck.cname(spec))
        for h, k, a, m in v:
            if kinds and k not in kinds:
                continue
            rep.violation("%s|%s" % (k, re.sub(r":\d+", "", a)), a, "%s [operations (name, tape, thread, argument): %s; %s]" % (
                m, " ".join(str(x) for x in h), tapecheck.cname(spec)))


def explore(rep, kinds=None):
    import multiprocessing
    tapesim.modules([("tape",) + s for s in SPECS])
    with multiprocessing.get_context("fork").Pool(4) as pool:
        r = pool.map_async(actjob, [(x, dict(k, kinds=kinds)) for x in SPECS for k in ({}, MORE)], chunksize=1)
        p = cg.program("weakinline")
        states(rep, r.get(), kinds)
    return p


def isolation(rep, tier):
    rep.rule("All abstract states of two tapes on two threads reachable by constructing, activating, deactivating, moving, destroying tapes and computing "
             "with variables are enumerated to the fixpoint: at most one tape is active per thread, activating a second one is refused with TapeAlreadyActive "
             "and leaves everything as it was, threads do not see each other's active tape, an operation never changes a tape it does not involve; likewise for two tapes with and without recordings, adjoints, checkpoints and callbacks "
             "besides a third one that may be active, where callbacks owned by a tape must be destroyed exactly when it is destroyed or assigned to.")
    rep.rule("In the un-inlined IR of a program using every operation of the library, every write is resolved to its base object (interprocedurally "
             "through written parameters); none may be an object of static storage duration that is not thread local, other than in its guarded "
             "initialisation or atomically.")
    p = explore(rep)
    cg.shared(p, rep, "whole library")
    rep.need(5000, "writes classified")
    rep.need(40, "abstract states of two tapes and two threads")


def nothrow(rep, tier):
    rep.rule("In the un-inlined IR of a program using every operation of the library, the set of library exceptions each function may let escape is "
             "computed as a least fixpoint over the call graph (handlers taken into account); no call under a terminate handler - the body of a function "
             "that may not throw, destructors included - may have such an exception. Where a guard excludes it (members of Tape), the "
             "fixpoint of the abstract states of P10 decides instead: no terminate is reachable.")
    p = explore(rep, ("terminate", "abort"))
    cg.noexcept(p, rep, "whole library")
    rep.need(100, "calls from functions that may not throw")
