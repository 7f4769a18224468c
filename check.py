#!/usr/bin/env python3
"""python3-vt /verif/check.py <property> [--tier quick|thorough]
Decides one property on /repo's current source by static analysis."""
import os, sys, traceback
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import common


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    os.environ["XAD_TIER"] = tier if tier == "thorough" else "quick"
    import registry
    rep = None
    try:
        rep = common.Report(prop, tier)
        registry.run(prop, rep, tier)
        return rep.finish()
    except common.Broken as e:
        if rep is not None and rep.viol:   # what was found stands
            return rep.finish()
        print("%s: the check cannot give an answer: %s" % (prop, e), file=sys.stderr)
        return 3
    except Exception:
        if rep is not None and rep.viol:
            return rep.finish()
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())
