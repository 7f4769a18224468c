"""P01-P05: values, derivatives and recording of all mathematical operations."""
import re
import mathcheck, refcheck, c_ref, c_objects
from common import *

BASE = ("Every operation is instantiated on every kind of operand (variable, expression, passive scalar of each type); the compiled "
        "drivers are normalised to gated value-number terms; for every region of the guards that is selected by a witness, the "
        "guard-free leaf term is compared with the reference term by algebraic normal form. ")


def key(case, what, where, msg):
    # stable identity: the operation and the construct, not the line
    fn = re.sub(r":\d+", "", where)
    return "%s|%s|%s" % (what, case.op, fn)


def fold(rep, tms, parts, cfgs, full=True, minimum=100, want=None, select=None, compile_rule=False):
    tested = 0
    for cfg in cfgs:
        res, bad = mathcheck.run_cases(tms, parts, cfg=cfg, full=full, select=select)
        for c, m in bad:
            if compile_rule:
                rep.obligation(False)
                rep.violation("compile|%s|%s" % (c.op, "".join(c.kinds)), "driver of " + c.text, "the operation is no longer available: " + m[:300])
        for c, viol, st, un in res:
            rep.count("operations analysed")
            if st.get("cut"):
                rep.count("items cut short by the time budget")
            if un:
                rep.unresolve("%s/%s: %s" % (cfg, c.name, un))
                continue
            rep.count("guard regions visited", st.get("points", 0))
            rep.count("guard boundaries added as regions", st.get("boundary", 0))
            rep.count("distinct leaf terms", st.get("leafterms", 0))
            rep.count("leaf terms equal by normal form", st.get("proved", 0))
            rep.count("leaf terms compared at witnesses only", st.get("tested", 0))
            vs = [v for v in viol if want is None or v[0] in want]
            rep.obligation(not vs)
            rep.sample("%s [%s]" % (c.text, cfg))
            for what, where, msg in vs:
                rep.violation(key(c, what, where, msg), where, msg)
    rep.need(minimum, "operations analysed")
    if not rep.viol and len(rep.unresolved) * 5 > rep.analysed["operations analysed"]:
        raise Broken("%d of %d operations cannot be interpreted: %s" % (len(rep.unresolved), rep.analysed["operations analysed"], rep.unresolved[:3]))


def cfgs(tier):
    return ["default"] if tier == "quick" else ["default", "reuse", "weakinline"]


def values(rep, tier):
    rep.rule(BASE + "The reference term is the underlying function applied to the operand values; functions of the C library must be "
             "computed by that very library function.")
    fold(rep, ["R", "F", "Rf", "Ff"], ("value",), cfgs(tier), minimum=1500, compile_rule=True)
    rep.rule("In addition the value term of each operation and the term of the same C++ expression on plain numbers are compared as IEEE terms, "
             "structurally or at operands that separate the floating-point classes.")
    c_ref.fold(rep, ["R", "F", "Rf", "Ff", "RF", "FF"], refcheck.value_cases, cfgs(tier), 800, "operations compared with plain numbers")


def adjoint(rep, tier):
    rep.rule(BASE + "The recorded statements are composed by the chain rule into the derivative of the result's slot with respect to "
             "each recorded operand's slot, and compared with the symbolic derivative of the reference value.")
    fold(rep, ["R", "Rf"], ("deriv", "record"), cfgs(tier), minimum=800, want=("deriv",))


def forward(rep, tier):
    rep.rule(BASE + "The derivative field of the result is compared with the sum of symbolic partial derivatives times the operands' "
             "derivative fields.")
    fold(rep, ["F", "Ff"], ("deriv",), cfgs(tier), minimum=800)


def recording(rep, tier):
    rep.rule(BASE + "The sequence of tape events under each combination of recorded and passive operands is checked: operands are "
             "recorded only from defined and still owned slots, every statement is closed on a registered slot, nothing is recorded without a "
             "recorded operand, a result with a non-zero derivative is recorded, and every slot taken is owned by the result or released.")
    fold(rep, ["R", "RF"] if tier == "quick" else ["R", "Rf", "RF"], ("record",), cfgs(tier) if tier != "quick" else ["default"],
         minimum=800, want=("record",))
    rep.rule("The same holds for the statements recorded by short programs of assignments, compound assignments, copies, moves and destructions.")
    c_objects.fold(rep, ["R", "RF"] if tier == "quick" else ["R", "Rf", "RF"], ["default"] if tier == "quick" else ["default", "reuse", "weakinline"], ("record",), 100)


def higher(rep, tier):
    rep.rule(BASE + "On doubly nested types all four derivative fields (forward over forward), respectively value and derivative of every "
             "recorded multiplier (forward over adjoint), are compared with first and second symbolic derivatives.")
    fold(rep, ["FF", "RF"], ("value", "deriv", "record"), cfgs(tier), minimum=800, want=("value", "deriv", "deriv2"))
