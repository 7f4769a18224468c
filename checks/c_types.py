"""P20: the type-level interface."""
import os, re
import common, typecheck as T
from common import *


def interface(rep, tier):
    rep.rule("Each obligation is one line of a generated translation unit: a static assertion about a type, a trait, an overload's result, or a call that has to "
             "resolve and instantiate for every kind of operand (active variable, constant, two kinds of expressions, six passive types). Both compilers decide it "
             "against the current headers in every language standard listed. For programs that have to be refused, the accepted twin of the statement has to compile "
             "and the offending one must not. Each public header has to compile alone and in any order, and defines no symbol that clashes when two units are linked.")
    q = tier == "quick"
    stds = {"clang++": [11, 17, 20] if q else [11, 14, 17, 20], "g++": [11, 20] if q else [11, 14, 17, 20]}
    cfgs = ["default", "reuse"] if q else ["default", "reuse", "weakinline", "ndebug"]
    types = T.FIRST + T.NESTED + ([] if q else T.NESTEDF)
    d = common.workdir()
    jobs = []

    def inner(a):
        m = re.match(r"(\w+)<(.*)>$", a)
        return m.group(1), m.group(2), re.search(r"double|float", a).group()
    tus = [("i", T.interface(), [])]
    for a in types:
        o, s, n = inner(a)
        tus.append(("c" + re.sub(r"\W+", "_", a), T.calls(a), []))
        tus.append(("t" + re.sub(r"\W+", "_", a), T.traits(a, n, o, s), []))
    for cfg in cfgs:
        conv = "true" if "XAD_ALLOW_INT_CONVERSION" in CONFIGS[cfg][0] else "false"
        common.config_dir(cfg)
        for nm, tu, _ in tus:
            if cfg != "default" and nm[0] == "c" and (q or cfg != "reuse"):
                continue
            p = os.path.join(d, "w%s-%s.cpp" % (nm, cfg))
            open(p, "w").write("#define INTCONV %s\n#line 1\n" % conv + tu.text())
            for cc in stds:
                for s in stds[cc] if cfg == "default" else stds[cc][-1:]:
                    jobs.append(("tu", nm, tu, p, cc, s, cfg))
    # without conversions to integers
    for nm, tu, _ in tus:
        if nm[0] == "t":
            p = os.path.join(d, "w%s-noint.cpp" % nm)
            open(p, "w").write("#define INTCONV false\n#line 1\n" + tu.text())
            for cc in stds:
                jobs.append(("tu", nm, tu, p, cc, 17, "noint"))
    common.config_dir("noint")
    # refused programs
    for i, (what, good, bad) in enumerate(T.REJECT):
        p = os.path.join(d, "r%d.cpp" % i)
        open(p, "w").write(T.REJECT_PRE + "#ifdef REFUSED\n%s\n#else\n%s\n#endif\n}\n" % (bad, good))
        for cc in stds:
            for s in ([17] if q else [11, 20]):
                jobs.append(("rej", i, what, p, cc, s, "default"))
    for i, h in enumerate(T.ALONE):
        p = os.path.join(d, "h%d.cpp" % i)
        open(p, "w").write("#include <%s>\n#include <%s>\n" % (h, h))
        for cc in stds:
            for s in stds[cc]:
                jobs.append(("hdr", h, "header alone", p, cc, s, "default"))
    for i, h in enumerate(T.PUBLIC):
        for j, g in enumerate(T.PUBLIC):
            if i != j:
                p = os.path.join(d, "h%d_%d.cpp" % (i, j))
                open(p, "w").write("#include <%s>\n#include <%s>\n" % (h, g) + "".join("#include <%s>\n" % x for x in reversed(T.PUBLIC)))
                jobs.append(("hdr", h + " before " + g, "header order", p, "clang++" if (i + j) % 2 else "g++", 11 if (i * j) % 2 else 20, "default"))

    def work(j):
        k, _, _, p, cc, s, cfg = j
        if k == "rej":
            return T.syntax(p, cc, s, cfg), T.syntax(p, cc, s, cfg, ["-DREFUSED"])
        return (T.syntax(p, cc, s, cfg),)
    for j, r in zip(jobs, common.pmap(work, jobs)):
        k, nm, tu, p, cc, s, cfg = j
        where = "%s -std=c++%d, configuration %s" % (cc, s, cfg)
        if k == "tu":
            rep.count("witness units compiled")
            rep.count("assertions and calls decided", len(tu.keys))
            bad = T.failing_lines(r[0].stderr, p) if r[0].returncode else {}
            rep.obl += len(tu.keys)
            rep.ok += len(tu.keys) - len([n for n in bad if n in tu.keys])
            rep.sample("%s: %d obligations, %s" % (tu.name, len(tu.keys), where))
            hit = [n for n in bad if n in tu.keys]
            for n in hit:
                m = bad[n]
                rep.violation("%s|%s" % (tu.name, tu.keys[n]), "%s with A = %s" % (tu.keys[n], tu.name.split(" ")[-1]),
                              "%s [%s]" % ("the witness does not hold" if "violated" in m else "does not compile: " + m, where))
            if r[0].returncode and not hit:
                m = re.search(r"[^\n]*error:[^\n]*", r[0].stderr)
                if not m:
                    raise Broken("compiler failed without a diagnostic: " + r[0].stderr[-300:])
                rep.violation("%s|headers" % tu.name, tu.name, "does not compile: %s [%s]" % (m.group()[:300], where))
        elif k == "rej":
            rep.count("refused programs and their accepted twins")
            rep.obl += 2
            rep.ok += (r[0].returncode == 0) + (r[1].returncode != 0)
            rep.sample("refused: " + tu)
            if r[0].returncode:
                m = re.search(r"[^\n]*error:[^\n]*", r[0].stderr)
                rep.violation("accepted|%s" % T.REJECT[nm][1], T.REJECT[nm][1], "a valid program is refused: %s [%s]" % (m.group()[:300] if m else r[0].stderr[-200:], where))
            elif r[1].returncode == 0:
                rep.violation("refused|%s" % T.REJECT[nm][2], T.REJECT[nm][2], "%s, and the program compiles [%s]" % (tu, where))
        else:
            rep.count("header inclusions")
            rep.obligation(not r[0].returncode)
            if r[0].returncode:
                m = re.search(r"[^\n]*error:[^\n]*", r[0].stderr)
                rep.violation("header|%s" % nm, nm, "%s does not compile: %s [%s]" % (tu, m.group()[:300] if m else r[0].stderr[-200:], where))
    for cfg in cfgs:
        bad, err = T.strong_symbols(T.PUBLIC, d, cfg)
        if bad is None:
            m = re.search(r"[^\n]*error:[^\n]*", err)
            rep.violation("odr|compile", "public headers", "do not compile together: %s" % (m.group()[:300] if m else err[-200:]))
            continue
        rep.count("configurations checked for clashing symbols")
        rep.obligation(not bad)
        for b in bad:
            rep.violation("odr|" + b, b, "defined strongly by including the headers, two units that include them do not link [configuration %s]" % cfg)
    rep.need(5000, "assertions and calls decided")
    rep.need(50, "refused programs and their accepted twins")
