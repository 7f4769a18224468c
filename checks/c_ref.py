"""P08 and the bit-level part of P01: AD expression against the same expression on plain numbers."""
import re
import refcheck
from common import *


def fold(rep, tms, gen, cfgs, minimum, what):
    for cfg in cfgs:
        res, bad = refcheck.run_ref(tms, gen=gen, cfg=cfg)
        for c, m in bad:
            rep.obligation(False)
            rep.violation("compile|%s|%s" % (c.op, "".join(c.kinds)), "driver of " + c.text, "the operation is no longer available: " + m[:300])
        for c, viol, st, un in res:
            rep.count(what)
            if st.get("cut"):
                rep.count("items cut short by the time budget")
            if un:
                rep.unresolve("%s/%s: %s" % (cfg, c.name, un))
                continue
            rep.count("structurally identical to the plain-number term", st.get("identical", 0))
            rep.count("compared at witness operands", st.get("tested", 0))
            rep.obligation(not viol)
            rep.sample(c.text)
            for where, msg in viol:
                rep.violation("ref|%s|%s|%s" % (c.op, "".join(c.kinds), re.sub(r":\d+", "", where)), where, msg)
    rep.need(minimum, what)
    if not rep.viol and len(rep.unresolved) * 5 > rep.analysed[what]:
        raise Broken("too many operations cannot be interpreted: %s" % rep.unresolved[:3])


def compare(rep, tier):
    rep.rule("Each comparison, classification, conversion and hash of AD operands and the same C++ expression on plain numbers are compiled "
             "and normalised; the two terms must be the same term after renaming the value fields to the plain operands. Where they differ in "
             "shape they are compared on operand values that separate the classes of floating-point numbers (NaN, infinities, signed zeros, "
             "subnormals, ties). No tape operation may remain in the driver.")
    fold(rep, ["R", "F", "Rf", "Ff"], refcheck.compare_cases, ["default"] if tier == "quick" else ["default", "reuse", "weakinline"], 500,
         "comparisons, classifications and conversions")
    fold(rep, ["RF", "FF"], refcheck.compare_cases, ["default"] if tier == "quick" else ["default", "reuse", "weakinline"], 700, "comparisons, classifications and conversions")
