"""P06, P07: state changes of AD variables: assignment, compound assignment, copies, moves, destruction."""
import re
import seqcheck
from common import *

BASE = ("Short straight-line programs over AD variables (construction, copy, move, assignment, compound assignment with aliasing, "
        "increment, swap, temporaries, destruction) are compiled against the library and normalised; under every combination of recorded and "
        "passive variables the guarded tape events are interpreted as a linear map from slots to initial variables. ")


def fold(rep, tms, cfgs, want, minimum, gen=seqcheck.seqs, tag="seq_"):
    for cfg in cfgs:
        res, bad = seqcheck.run_seqs(tms, cfg=cfg, gen=gen, tag=tag)
        for c, m in bad:
            rep.obligation(False)
            rep.violation("compile|%s" % c.op, "driver of " + c.text, "no longer available for %s: %s" % (c.tm, m[:300]))
        for c, viol, st, un in res:
            rep.count("programs analysed")
            rep.count("final states examined", st.get("points", 0))
            rep.count("guard boundaries added as regions", st.get("boundary", 0))
            rep.count("distinct leaf terms", st.get("leafterms", 0))
            rep.count("leaf terms equal by normal form", st.get("proved", 0))
            rep.count("leaf terms compared at witnesses only", st.get("tested", 0))
            if st.get("cut"):
                rep.count("items cut short by the time budget")
            if un:
                rep.unresolve("%s/%s: %s" % (cfg, c.name, un))
                continue
            vs = [v for v in viol if v[0] in want]
            rep.obligation(not vs)
            rep.sample("%s: %s" % (c.tm, c.text))
            for what, where, msg in vs:
                rep.violation("%s|%s|%s" % (what, c.op, re.sub(r":\d+", "", where)), where, msg)
    rep.need(minimum, "programs analysed")
    if not rep.viol and len(rep.unresolved) * 5 > rep.analysed["programs analysed"]:
        raise Broken("too many programs cannot be interpreted: %s" % rep.unresolved[:3])


def assign(rep, tier):
    rep.rule(BASE + "Value and derivative of every variable afterwards must be those of the same program on plain numbers and its symbolic derivative.")
    fold(rep, ["R", "F", "Rf", "Ff", "RF", "FF"], ["default"] if tier == "quick" else ["default", "reuse", "weakinline"], ("value", "deriv"), 300)


def ownership(rep, tier):
    rep.rule(BASE + "Every slot taken is held by exactly one live variable or has been released exactly once; only owned slots are recorded; "
             "a variable that depends on a recorded one is itself recorded; a program without recorded variables leaves the tape alone.")
    fold(rep, ["R", "Rf", "RF"], ["default", "reuse"] if tier == "quick" else ["default", "reuse", "weakinline"], ("own", "record"), 300)
