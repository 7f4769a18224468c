"""P19: Jacobian and Hessian drivers."""
import multiprocessing, re
import jaccheck, tapecheck, tapesim, par
from common import *


def work(job):
    spec, tier, k, n = job
    j = jaccheck.Jac(*spec)
    out = []
    for i, c in enumerate(jaccheck.cases(tier)):
        if i % n != k:
            continue
        try:
            r = par.guarded(lambda: jaccheck.run(j, c))
        except par.Timeout:
            r = ("open", "time budget")
        if r and r[0] == "viol" and (not r[2] or r[2].startswith("?")):
            r = ("viol", r[1], j.last, r[3])
        out.append((c, r))
    return job, out


def jacobians(rep, tier):
    rep.rule("computeJacobian and computeHessian, adjoint and forward, are instantiated on functions that multiply, reuse, pass through, overwrite and "
             "ignore their arguments, translated into transfer functions over exact memory and polynomial values, and evaluated with symbolic inputs: every "
             "entry must be the polynomial that differentiating the function gives, so each case stands for all input values. Matrices of the wrong size are "
             "refused, nothing is accessed outside live memory or leaked, and the tape - none, or one in use - is left as it was.")
    specs = [("double", 3, "default"), ("double", 2, "reuse")] + ([] if tier == "quick" else [("float", 3, "default"), ("double", 0, "default"), ("float", 4, "reuse")])
    tapesim.modules([("jac",) + s for s in specs])
    n = 8
    with multiprocessing.get_context("fork").Pool(8) as pool:
        res = pool.map(work, [(s, tier, k, n) for s in specs for k in range(n)], chunksize=1)
    for job, out in res:
        for c, r in out:
            t = "%s(%d variables, %d functions, form %d, %s, tape: %s%s)" % (
                jaccheck.WHO[c[0]], c[1], c[2], c[3], "matrix returned" if c[4] == 0 else "rows written", ("none", "given", "in use")[c[5]],
                "" if len(c) < 8 else ", %d x %d" % (c[6], c[7]))
            rep.count("instances")
            if r and r[0] == "open":
                rep.unresolve("%s: %s" % (t, r[1]))
                continue
            rep.obligation(r is None)
            rep.sample(t)
            if r:
                rep.violation("%s|%s" % (r[1], re.sub(r":\d+", "", r[2]).split("<")[0]), r[2], "%s: %s [%s]" % (t, r[3][:500], tapecheck.cname(job[0])))
    rep.need(800, "instances")
    if not rep.viol and len(rep.unresolved) * 5 > rep.analysed["instances"]:
        raise Broken("too many instances cannot be interpreted: %s" % rep.unresolved[:3])
