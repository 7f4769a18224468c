"""Runs families of client histories through the abstract tape in parallel and folds the results into a report."""
import multiprocessing, os, re, time
import absint, par, tapesim, tapehist, tapewords
from common import *

ENTRY = {"e_reg": "Tape::registerVariable", "e_unreg": "Tape::unregisterVariable", "e_rhs": "Tape::pushRhs", "e_rhsmove": "Tape::pushRhs",
         "e_lhs": "Tape::pushLhs", "e_pushall": "Tape::pushAll", "e_newrec": "Tape::newRecording", "e_compute": "Tape::computeAdjoints",
         "e_computeto": "Tape::computeAdjointsTo", "e_clearall": "Tape::clearAll", "e_clearder": "Tape::clearDerivatives",
         "e_clearafter": "Tape::clearDerivativesAfter", "e_resetto": "Tape::resetTo", "e_getpos": "Tape::getPosition",
         "e_setder": "Tape::setDerivative", "e_setdermove": "Tape::setDerivative", "e_derset": "Tape::derivative", "e_incr": "Tape::incrementAdjoint",
         "e_getreset": "Tape::getAndResetOutputAdjoint", "e_nvars": "Tape::getNumVariables", "e_nops": "Tape::getNumOperations",
         "e_nstmts": "Tape::getNumStatements", "e_memory": "Tape::getMemory", "e_nreuse": "Tape::getNumReusableSlots",
         "e_nsect": "Tape::getNumReusableSlotSections", "e_insertcb": "Tape::insertCallback", "e_pushcb": "Tape::pushCallback",
         "e_lastcb": "Tape::getLastCallback", "e_ncb": "Tape::getNumCallbacks", "e_havecb": "Tape::haveCallbacks", "e_popcb": "Tape::popCallback",
         "e_newnested": "Tape::newNestedRecording", "e_endnested": "Tape::endNestedRecording", "e_dtor": "Tape::~Tape", "e_ctor": "Tape::Tape",
         "e_mctor": "Tape::Tape(Tape&&)", "e_massign": "Tape::operator=(Tape&&)", "e_activate": "Tape::activate", "e_deactivate": "Tape::deactivate",
         "e_isactive": "Tape::isActive", "e_getactive": "Tape::getActive", "e_setactive": "Tape::setActive", "e_deactivateall": "Tape::deactivateAll",
         "e_scopednew": "ScopedNestedRecording", "e_scopeddel": "ScopedNestedRecording", "e_scopedcompute": "ScopedNestedRecording::computeAdjoints",
         "e_scopedincr": "ScopedNestedRecording::incrementAdjoint"}
_sims = {}


def sim(spec):
    if spec not in _sims:
        if spec[-1] == "poke":
            import refusals
            _sims[spec] = refusals.PokeSim(*spec[:3])
        else:
            _sims[spec] = tapesim.Sim(*spec)
    return _sims[spec]


def where(s, w):
    """construct a disagreement is attributed to: position inside the library, or the last operation that changed state"""
    if w and not w.startswith("?"):
        return w
    return ENTRY.get(getattr(s, "lastcall", ""), "Tape")


def family(f, sc, tier):
    import refusals
    return getattr(tapehist if hasattr(tapehist, f) else refusals, f)(sc, tier)


def history(job):
    _, spec, fam, tier, idx = job
    out = []
    s = sim(spec)
    hs = family(fam, spec[0], tier)
    for i in idx:
        h = hs[i]
        t0 = s.M.calls
        try:
            r = par.guarded(lambda: tapehist.run(s, h))
        except par.Timeout:
            out.append((h.text(), ("open", "time budget"), 0))
            continue
        if r and r[0] == "viol":
            r = ("viol", r[1], where(s, r[2]), r[3])
        out.append((h.text(), r, s.M.calls - t0))
    return job, out, None


def words(job):
    _, spec, pre, length, first, ops = job
    s = sim(spec)
    par.ITEM = 600
    try:
        v, st = par.guarded(lambda: tapewords.explore(s, pre, length, first, ops))
    except par.Timeout:
        return job, [], {"words": 0, "open": 1, "why": "time budget"}
    v = [(w, k, where(s, a), m) for w, k, a, m in v]
    return job, v, st


def work(job):
    try:
        return (history if job[0] == "h" else words)(job)
    except Exception as e:
        import traceback
        return job, None, traceback.format_exc()[-1500:]


KIND = {"default": "default slots", "reuse": "slot re-use", "ndebug": "default slots, no assertions", "reusedbg": "slot re-use, assertions"}


def cname(spec):
    return "%s, %s, %s" % (spec[0], KIND[spec[2]], "chunks of %d" % spec[1] if spec[1] else "default chunks")


def run(rep, tier, fams, specs, wordjobs=(), wspecs=()):
    """fams: history families; wordjobs: (prefix, length, alphabet, must) explored for every spec in wspecs"""
    tapesim.modules([("tape",) + s[:3] for s in dict.fromkeys(list(specs) + list(wspecs))])
    jobs = []
    for spec in specs:
        for f in fams:
            n = len(family(f, spec[0], tier))
            k = max(1, n // 10)
            jobs += [("h", spec, f, tier, list(range(i, min(i + k, n)))) for i in range(0, n, k)]
    for spec in wspecs:
        for pre, length, ops, must in wordjobs:
            jobs += [("w", spec, pre, length, op, tuple(ops)) for op in ops]
    jobs.sort(key=lambda j: 0 if j[0] == "w" else 1)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 8)) as pool:
        res = list(pool.imap_unordered(work, jobs, chunksize=1))
    crashed = 0
    for job, out, st in res:
        spec = job[1]
        if out is None:
            crashed += 1
            rep.unresolve("%s: %s: %s" % (cname(spec), job[2], st[-300:]))
            if crashed * 5 > len(res):
                raise Broken(st)
            continue
        if job[0] == "h":
            for text, r, calls in out:
                rep.count("client histories")
                rep.count("abstract calls of library operations", calls)
                if r and r[0] == "open":
                    rep.unresolve("%s: %s: %s" % (cname(spec), text, r[1]))
                    continue
                rep.obligation(r is None)
                rep.sample("%s: %s" % (cname(spec), text))
                if r:
                    rep.violation("%s|%s" % (r[1], re.sub(r":\d+", "", r[2])), r[2], "%s [%s; %s]" % (r[3][:600], text, cname(spec)))
        else:
            rep.count("operation sequences", st["words"])
            rep.obl += st["words"]
            rep.ok += st["words"] - len(out) - st["open"]
            if st["open"]:
                rep.unresolve("%s: %d sequences starting with %s: %s" % (cname(spec), st["open"], job[4], st.get("why")))
            for w, k, a, m in out:
                rep.violation("%s|%s" % (k, re.sub(r":\d+", "", a)), a, "%s [operations: %s; %s]" % (m[:600], ", ".join(w), cname(spec)))
    return res
