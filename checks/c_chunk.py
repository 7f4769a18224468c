"""P17: the chunk container against a plain sequence."""
import multiprocessing, re
import absint, chunkcheck, tapecheck, tapesim, par
from common import *

QUICK = [("double", 1, 5, None), ("double", 2, 7, None), ("double", 3, 10, None), ("double", 5, 16, None), ("Elem", 1, 5, None), ("Elem", 2, 7, None),
         ("Elem", 3, 10, None), ("float", 4, 13, None), ("double", 1, 34, (0, 33)), ("Elem", 1, 34, (0, 33))]
MORE = [("double", 4, 17, None), ("Elem", 4, 17, None), ("double", 8, 26, None), ("Elem", 5, 16, None), ("float", 3, 13, None), ("double", 2, 70, (0, 65)),
        ("Elem", 2, 70, (0, 65)), ("Elem", 7, 22, None)]


def work(job):
    sc, ch, top, few = job
    par.ITEM = 500

    def go():
        c = chunkcheck.Chunk(sc, ch, "default")
        c.few = few
        return c.explore(top)
    try:
        v, st = par.guarded(go)
        return job, v, st, None
    except par.Timeout:
        return job, [], {"states": 0, "transitions": 0, "complete": False}, "time budget"
    except absint.Unsupported as e:
        return job, [], {"states": 0, "transitions": 0, "complete": False}, "%s: %s" % (tapesim.at(getattr(e, "where", None))[0], e)


def container(rep, tier):
    rep.rule("The abstract states of a container (shape-exact memory, elements symbolic by position, free places unknown) reachable by its operations - "
             "push_back, emplace_back, append, resize, assign, clear, reserve, uninitialized_extend, moves in both directions and failing allocations - "
             "are computed to the least fixpoint for sizes up to a bound. In every state the container must agree with a plain sequence: size, elements "
             "through operator[], iterators and chunks, capacity, nothing outside live memory touched, every element constructed and destroyed exactly "
             "once, all memory released at destruction.")
    jobs = QUICK + (MORE if tier != "quick" else [])
    tapesim.modules(list(dict.fromkeys(("chunk", j[0], j[1], "default") for j in jobs)))
    with multiprocessing.get_context("fork").Pool(8) as pool:
        res = list(pool.imap_unordered(work, sorted(jobs, key=lambda j: -j[2]), chunksize=1))
    done = 0
    for (sc, ch, top, few), v, st, err in sorted(res, key=lambda r: str(r[0])):
        what = "elements %s, %d per chunk, up to %d" % (sc, ch, top)
        rep.count("abstract container states", st["states"])
        rep.count("transitions", st["transitions"])
        rep.obl += st["transitions"]
        rep.ok += st["transitions"] - len(v)
        rep.notes.append("%s: %d states, %d transitions" % (what, st["states"], st["transitions"]))
        if err or not st["complete"]:
            rep.unresolve("%s: %s" % (what, err or "fixpoint not reached"))
        else:
            done += 1
        for h, kind, (w, fn), m, last in v:
            a = "ChunkContainer::%s" % last if w == "?" else "%s (%s)" % (w, fn)
            rep.violation("%s|%s" % (kind, re.sub(r":\d+", "", a).split("<")[0]), a, "%s [operations: %s; %s]" % (
                m, " ".join(":".join(map(str, x)) for x in h), what))
    if not rep.viol and done * 2 < len(jobs):
        raise Broken("the container cannot be interpreted: %s" % rep.unresolved[:2])
