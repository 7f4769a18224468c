"""Short statement sequences over AD objects: values, derivatives, recorded statements and slot
ownership after construction, assignment, compound assignment, move, swap and destruction."""
import multiprocessing, os, random, re
import termeval, par
from adsem import *
from mathcheck import CaseCheck, Inconclusive, FREAL_LAY, f32
import sympy as sp

VALS = [(1.3, -0.7, 2.2, 0.4), (-2.6, 1.9, 0.5, 3.1), (0.9, 0.8, -1.7, -2.4), (4.0, -3.0, -0.25, 1.5)]

# coinciding and special operand values
SAME = [(2.0, 2.0, 2.0, 2.0), (0.0, 1.0, 0.0, 0.0), (1.0, 0.0, 3.0, 1.0), (-1.0, 0.5, -1.0, -1.0)]


class Seq:
    """params: list of (name, kind) with kind in
         A  AD object in scope before and after    C  const AD object
         N  raw storage, an AD object afterwards   D  AD object before, destroyed by the body
         S  nested scalar, I int, f other floating scalar, G long long
       post: {object: expression over the initial values of the parameters}"""

    def __init__(self, tm, name, params, body, post, dmask=None, moved=()):
        self.tm, self.op, self.name = tm, name, tm + "_" + re.sub(r"\W", lambda m: {" ": "_", "+": "p", "-": "m", "*": "t", "/": "d", "=": "e"}.get(m.group(0), "_"), name)
        self.params, self.body, self.post, self.dmask, self.moved = params, body, post, dmask or {}, moved
        self.kinds = [k for _, k in params]
        self.text = "{ %s }" % body.replace("xad::AReal<double>", "T")

    def driver(self):
        Ty = TYPES[self.tm]
        ps, self.leaves = [], []
        for i, (n, k) in enumerate(self.params):
            t = {"A": Ty + "&", "C": "const %s&" % Ty, "N": Ty + "*", "D": Ty + "*", "S": NEST[self.tm], "I": "int", "G": "long long",
                 "f": "float" if NEST[self.tm] == "double" else "double"}[k]
            ps.append((t, n))
            if k in "ACD":
                self.leaves.append((n, "A", i))
            elif k in "S":
                self.leaves.append((n, "S", i))
            elif k in "f":
                self.leaves.append((n, "S", i))
            elif k in "IG":
                self.leaves.append((n, "I", i))
        return Driver(self.name, ps, "typedef %s T; (void)sizeof(T); %s" % (Ty, self.body), meta={"case": self})


def seqs(tm):
    out = []
    s = lambda *a, **k: out.append(Seq(tm, *a, **k))
    x, y, z, w = sp.symbols("x y z w")
    i = sp.Symbol("i")
    # ---- compound assignment
    OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}
    nested = tm in ("RF", "FF")
    for o, f in OPS.items():
        nm = {"+": "add", "-": "sub", "*": "mul", "/": "div"}[o]
        s("x %s= y" % o + nm, [("x", "A"), ("y", "C")], "x %s= y;" % o, {"x": f(x, y), "y": y})
        s("x %s= y*z" % o + nm, [("x", "A"), ("y", "C"), ("z", "C")], "x %s= y * z;" % o, {"x": f(x, y * z), "y": y, "z": z})
        if True:
            s("x %s= scalar" % o + nm, [("x", "A"), ("w", "S")], "x %s= w;" % o, {"x": f(x, w)})
            s("x %s= other" % o + nm, [("x", "A"), ("w", "f")], "x %s= w;" % o, {"x": f(x, w)})
            s("(x %s= scalar) += y" % o + nm, [("x", "A"), ("y", "C"), ("w", "S")], "(x %s= w) += y;" % o, {"x": f(x, w) + y})
        if True:
            s("x %s= int" % o + nm, [("x", "A"), ("i", "I")], "x %s= i;" % o, {"x": f(x, i)})
            s("x %s= longlong" % o + nm, [("x", "A"), ("i", "G")], "x %s= i;" % o, {"x": f(x, i)})
        s("x %s= x" % o + nm, [("x", "A")], "x %s= x;" % o, {"x": f(x, x)})
        s("x %s= x*y" % o + nm, [("x", "A"), ("y", "C")], "x %s= x * y;" % o, {"x": f(x, x * y), "y": y})
        s("x %s= y*x+z" % o + nm, [("x", "A"), ("y", "C"), ("z", "C")], "x %s= y * x + z;" % o, {"x": f(x, y * x + z)})
        s("x = x %s y" % o + nm, [("x", "A"), ("y", "C")], "x = x %s y;" % o, {"x": f(x, y)})
        s("x = y %s x" % o + nm, [("x", "A"), ("y", "C")], "x = y %s x;" % o, {"x": f(y, x)})
        s("(x %s= y) *= z" % o + nm, [("x", "A"), ("y", "C"), ("z", "C")], "(x %s= y) *= z;" % o, {"x": f(x, y) * z})
    if True:
      s("++x", [("x", "A"), ("o", "N")], "::new ((void*)o) T(++x);", {"x": x + 1, "o": x + 1})
      s("x++", [("x", "A"), ("o", "N")], "::new ((void*)o) T(x++);", {"x": x + 1, "o": x})
      s("--x", [("x", "A"), ("o", "N")], "::new ((void*)o) T(--x);", {"x": x - 1, "o": x - 1})
      s("x--", [("x", "A"), ("o", "N")], "::new ((void*)o) T(x--);", {"x": x - 1, "o": x})
    # ---- assignment
    s("x = y", [("x", "A"), ("y", "C")], "x = y;", {"x": y, "y": y})
    s("x = x", [("x", "A")], "T& r = x; x = r;", {"x": x})
    s("x = x*x", [("x", "A")], "x = x * x;", {"x": x * x})
    s("x = -x", [("x", "A")], "x = -x;", {"x": -x})
    s("x = y*z", [("x", "A"), ("y", "C"), ("z", "C")], "x = y * z;", {"x": y * z})
    s("x = y*x + x/z", [("x", "A"), ("y", "C"), ("z", "C")], "x = y * x + x / z;", {"x": y * x + x / z})
    s("x = exp(x)*sin(x)", [("x", "A")], "x = exp(x) * sin(x);", {"x": sp.exp(x) * sp.sin(x)})
    s("x = scalar", [("x", "A"), ("w", "S")], "x = w;", {"x": w})
    s("x = int", [("x", "A"), ("i", "I")], "x = i;", {"x": i})
    s("x = scalar; x = x*y", [("x", "A"), ("y", "C"), ("w", "S")], "x = w; x = x * y;", {"x": w * y})
    s("x = y = z", [("x", "A"), ("y", "A"), ("z", "C")], "x = y = z * z;", {"x": z * z, "y": z * z})
    s("y = x; x = y*y", [("x", "A"), ("y", "A")], "y = x; x = y * y; y = x * y;", {"x": x * x, "y": x ** 3})
    s("x = T(y*z)", [("x", "A"), ("y", "C"), ("z", "C")], "x = T(y * z);", {"x": y * z})
    s("x = scalar then recorded", [("x", "A"), ("y", "A"), ("w", "S")], "y = x * y; x = w; y += x;", {"x": w, "y": x * y + w})
    # ---- construction, copies, moves, temporaries
    s("copy-construct", [("o", "N"), ("y", "C")], "::new ((void*)o) T(y);", {"o": y, "y": y})
    s("default-construct", [("o", "N")], "::new ((void*)o) T();", {"o": sp.Integer(0)})
    s("scalar-construct", [("o", "N"), ("w", "S")], "::new ((void*)o) T(w);", {"o": w})
    s("int-construct", [("o", "N"), ("i", "I")], "::new ((void*)o) T(i);", {"o": i})
    s("move-construct", [("o", "N"), ("y", "A")], "::new ((void*)o) T(static_cast<T&&>(y));", {"o": y}, moved=("y",))
    s("move-construct + destroy", [("o", "N"), ("y", "D")], "::new ((void*)o) T(static_cast<T&&>(*y)); y->~T();", {"o": y})
    s("move-assign", [("x", "A"), ("y", "A")], "x = static_cast<T&&>(y);", {"x": y}, moved=("y",))
    s("move-assign + destroy", [("x", "A"), ("y", "D")], "x = static_cast<T&&>(*y); y->~T();", {"x": y})
    s("self-move-assign", [("x", "A")], "T& r = x; x = static_cast<T&&>(r);", {"x": x})
    s("destroy", [("y", "D")], "y->~T();", {})
    s("swap", [("x", "A"), ("y", "A")], "T t(static_cast<T&&>(x)); x = static_cast<T&&>(y); y = static_cast<T&&>(t);", {"x": y, "y": x})
    s("copy-swap", [("x", "A"), ("y", "A")], "T t(x); x = y; y = t;", {"x": y, "y": x})
    s("local temporary", [("x", "A"), ("y", "C"), ("z", "C")], "{ T t = x * y; T u = t + z; x = t * u; }", {"x": x * y * (x * y + z)})
    s("local reassigned", [("x", "A"), ("y", "C")], "{ T t = x; t = t * y; t += x; x = t; }", {"x": x * y + x})
    s("move then reuse source", [("x", "A"), ("y", "A"), ("z", "C")], "T t(static_cast<T&&>(y)); y = z * z; x = t * y;", {"x": y * z * z, "y": z * z})
    s("move-assign then reuse source", [("x", "A"), ("y", "A"), ("z", "C")], "x = static_cast<T&&>(y); y = z * z; x = x * y;", {"x": y * z * z, "y": z * z})
    s("by-value function", [("x", "A"), ("y", "C")], "auto f = [](T a, T b) { a = a * b; return a; }; x = f(x, y);", {"x": x * y, "y": y})
    s("saved expression", [("x", "A"), ("y", "C")], "auto e = x * y + x; x = e;", {"x": x * y + x})
    s("array fill", [("x", "A"), ("y", "C")], "T a[3] = {x, y, x * y}; a[0] = a[1] * a[2]; a[1] = a[0]; x = a[1] + a[2];", {"x": x * y * y + x * y})
    s("accumulate", [("x", "A"), ("y", "C"), ("z", "C")], "T acc = 0.0; acc += x * y; acc += y * z; acc -= z * x; x = acc;", {"x": x * y + y * z - z * x})
    s("horner", [("x", "A"), ("y", "C")], "T r = 2.0; r = r * y + x; r = r * y - x; r = r * y + 1.0; x = r;", {"x": ((2 * y + x) * y - x) * y + 1})
    s("overwrite chain", [("x", "A"), ("y", "A"), ("z", "C")], "x = x * z; y = y * x; x = 1.5; x = x * y; y = z;", {"x": sp.Rational(3, 2) * x * y * z, "y": z})
    s("conditional move", [("x", "A"), ("y", "A")], "T t = x - y; if (t < 1000.0) { x = t * t; } else { x = y; } y = t;", {"x": (x - y) ** 2, "y": x - y})
    s("return conditional", [("x", "A"), ("y", "C")], "auto f = [](const T& a, const T& b) -> T { if (a > -1000.0) return a * b; return b; }; x = f(x, y) + f(y, x);", {"x": 2 * x * y})
    s("pass by move", [("x", "A"), ("y", "C")], "auto f = [](T&& a) -> T { T b(static_cast<T&&>(a)); b = b * 3.0; return b; }; x = f(x * y);", {"x": 3 * x * y})
    s("placement of temporary array", [("x", "A"), ("y", "C")], "T a[2]; a[0] = x; a[1] = y; T b[2] = {a[1], a[0]}; b[0] = b[0] * a[0]; x = b[0] + b[1];", {"x": x * y + x})
    return out


class SeqCheck(CaseCheck):
    def __init__(self, case, js, lay):
        super().__init__(case, js, lay)
        self.objs = [(n, k, i) for i, (n, k) in enumerate(case.params) if k in "ACND"]

    def field(self, ai, fld, mem):
        p = mk("arg", (), ai)
        return self.fn.load(mem, self.fn.padd(p, self.lay[fld]), None, 4 if ("slot" in fld or self.tm.endswith("f")) else 8)

    def check(self, parts):
        c = self.case
        ex = [e for e in self.fn.exits if e[1] == "ret"]
        if len(ex) != 1:
            raise Inconclusive("%d exits" % len(ex))
        mem = ex[0][3]
        rng = random.Random("%s/%d" % (c.name, SEED))
        names = [n for n, _, _ in c.leaves]
        act = [n for n, k, _ in c.leaves if k == "A"]
        gs = {n: sp.Symbol(n) for n in ("x", "y", "z", "w", "i")}
        dn = [n + "." + fld for n in act for fld in self.lay if fld != "v" and "slot" not in fld]
        rows = []
        own = getattr(c, "rows", None)
        for row in own or VALS + SAME:
            if not own and row in SAME and 0.0 in row and ("/" in c.body or "if (" in c.body):
                continue
            vals = {}
            for (n, k, _), v in zip(c.leaves, row):
                vals[n] = (int(v) if row in SAME else int(round(v * (1 if own else 2)))) if k == "I" else (f32(v) if self.tm.endswith("f") or "f" in c.kinds else v)
            rows.append((vals, None))
        full = {(n, "slot"): 7 + j for j, n in enumerate(act)} if "slot" in self.lay else {}
        guards, stage, used = termeval.guards_on(), 0, []
        while True:
            if not rows:
                if stage >= 2 or not used or "if (" in c.body or not getattr(c, "boundaries", True):
                    break
                stage += 1
                self.refined = True
                mkenv = lambda r: self.env({n: r[n] for n in names}, full, {k: r[k] for k in dn})
                rows = [({n: r[n] for n in names}, {k: r[k] for k in dn}) for r in termeval.refine(dict(guards), used[:4], mkenv)]
                self.stats["boundary"] = self.stats.get("boundary", 0) + len(rows)
                if not rows:
                    break
            vals, given = rows.pop(0)
            subs = {self.syms[n]: (v if isinstance(v, int) else mp.mpf(v)) for n, v in vals.items()}
            dots = dict(given) if given else {}
            for k in dn if not given else ():
                dots[k] = mp.mpf(rng.choice([0.37, -1.21, 2.05, 0.83])) + rng.randint(0, 3)
            used.append(dict(vals, **dots))
            for k, v in dots.items():
                subs[self.syms[k]] = v
            tosym = {gs[n]: self.syms[n] for n in gs if n in self.syms}
            tosym.update({sp.Symbol(k.replace(".", "_")): self.syms[k] for k in dn})
            for n in vals:
                if n in self.syms:
                    subs[sp.Symbol(n + "_v")] = subs[self.syms[n]]
            post = {o: sp.sympify(e).subs(tosym, simultaneous=True) for o, e in c.post.items()}
            recs = [()]
            if "slot" in self.lay:
                for a in act:
                    recs = recs + [r + (a,) for r in recs]
            for rec in recs:
                slots = {(n, "slot"): 7 + j for j, n in enumerate(rec)}
                ev = Evaluator(self.env(vals, slots, dots))
                for n, k, ai in self.objs:
                    if n not in post:
                        continue
                    self.compare("value", self.field(ai, "v", mem), post[n], ev, subs, "value of %s after %s" % (n, c.text))
                    if "d" in self.lay:
                        exp = sum((sp.diff(post[n], self.syms[m]) * self.syms[m + ".d"] for m in act), sp.Integer(0))
                        self.compare("deriv", self.field(ai, "d", mem), exp, ev, subs, "derivative of %s after %s" % (n, c.text))
                    if "dd" in self.lay:
                        for fld in ("vd", "dv"):
                            exp = sum((sp.diff(post[n], self.syms[m]) * self.syms[m + "." + fld] for m in act), sp.Integer(0))
                            self.compare("deriv", self.field(ai, fld, mem), exp, ev, subs, "derivative (%s) of %s after %s" % (fld, n, c.text))
                        exp = sp.Integer(0)
                        for m in act:
                            exp += sp.diff(post[n], self.syms[m]) * self.syms[m + ".dd"]
                            for k2 in act:
                                exp += sp.diff(post[n], self.syms[m], self.syms[k2]) * self.syms[m + ".dv"] * self.syms[k2 + ".vd"]
                        self.compare("deriv", self.field(ai, "dd", mem), exp, ev, subs, "second derivative of %s after %s" % (n, c.text))
                if "slot" in self.lay:
                    self.rev(ev, rec, slots, post, subs, mem)
                if len(self.viol) > 6:
                    return self
        return self

    def rev(self, ev, rec, slots, post, subs, mem):
        c = self.case
        ctx = " [recorded before: %s]" % (", ".join(rec) or "none")
        st = self.replay(ev, slots)
        D, live, dead, nreg, nstmt = st["D"], st["live"], st["dead"], st["nreg"], st["nstmt"]
        rep = lambda what, loc, msg: self.viol.append((what, locstr(loc) if loc else "driver of " + c.text, msg + ctx))
        for what, loc, msg in st["errors"]:
            rep(what, loc, msg)
        self.stats["points"] += 1
        held = {}
        for n, k, ai in self.objs:
            if k == "D":
                continue
            s = ev.num(self.field(ai, "slot", mem))
            if s != -1:
                if s in held:
                    rep("own", None, "%s: %s and %s both hold slot %s" % (c.text, n, held[s], s))
                held[s] = n
                if s not in live:
                    rep("own", None, "%s: %s holds slot %s which is not registered to it" % (c.text, n, s))
            if n in post and n not in c.moved:
                for m in rec:
                    want = sp.diff(post[n], self.syms[m])
                    if s == -1:
                        w = sp_num(want, subs)
                        if w != 0:
                            rep("record", None, "%s: %s depends on recorded %s (derivative %s) but is not recorded" % (c.text, n, m, mp.nstr(w, 6)))
                    else:
                        t = D.get(s, {}).get(m, (mk("cf", (), 0.0),) * 2)
                        self.compare("deriv", t[0], want, ev, subs, "adjoint of %s w.r.t. the initial %s after %s%s" % (n, m, c.text, ctx))
                if s != -1:
                    for m in D.get(s, {}):
                        if m not in rec:
                            rep("record", None, "%s: %s is recorded as depending on %s" % (c.text, n, m))
        for s in live:
            if s not in held:
                rep("own", None, "%s: slot %s is registered but no object holds it any more" % (c.text, s))
        if nstmt > 1 and re.fullmatch(r"(T& r = x; )?\w+ [-+*/]?= [^;=]*;", c.body) and "T(" not in c.body:
            rep("record", None, "%s: one assignment records %d statements" % (c.text, nstmt))
        if not rec and (nreg or nstmt):
            rep("record", None, "%s: nothing was recorded before, but the tape is written" % c.text)

    def replay(self, ev, slots):
        """run the guarded tape events in order at this region; the abstract tape is the linear map D"""
        c = self.case
        scalar_ty = TYPES[self.tm][len("xad::AReal<"):-1].strip()
        second = self.tm == "RF"
        one, zero = mk("cf", (), 1.0), mk("cf", (), 0.0)
        D, pend, live, dead, errors = {}, [], [], [], []
        for (n, f), s in slots.items():
            D[s] = {n: (one, zero)}
            live.append(s)
        nreg = nstmt = 0
        for e in self.fn.events:
            if not ev.num(e.cond):
                continue
            kind, ty = evkind(e)
            if kind is None:
                raise Inconclusive("event " + e.name)
            if ty.replace(" ", "") != scalar_ty.replace(" ", ""):
                continue
            if kind == "registerVariable":
                live.append(ev.num(e.res)); nreg += 1
                D.pop(ev.num(e.res), None)
            elif kind == "unregisterVariable":
                s = ev.num(e.args[1])
                if s not in live:
                    errors.append(("own", e.loc, "%s releases slot %s which is not owned (any more)" % (c.text, s)))
                else:
                    live.remove(s); dead.append(s)
            elif kind == "pushRhs":
                s = ev.num(e.args[2])
                pend.append((e, s))
                if s not in live:
                    errors.append(("record", e.loc, "%s records an operand in slot %s which is not owned" % (c.text, s)))
                elif s not in D:
                    errors.append(("record", e.loc, "%s records an operand in slot %s that no statement defines" % (c.text, s)))
            elif kind == "pushLhs":
                s = ev.num(e.args[1])
                if s not in live:
                    errors.append(("record", e.loc, "%s records a statement for slot %s which is not owned" % (c.text, s)))
                acc = {}
                for pe, ps in pend:
                    m = (self.mult(pe, "v"), self.mult(pe, "d") if second else zero)
                    for n, t in D.get(ps, {}).items():
                        p = (self.tmul(m[0], t[0]), self.tadd(self.tmul(m[0], t[1]), self.tmul(m[1], t[0])))
                        acc[n] = (self.tadd(acc[n][0], p[0]), self.tadd(acc[n][1], p[1])) if n in acc else p
                D[s] = acc
                pend = []
                nstmt += 1
            else:
                raise Inconclusive(kind)
        if pend:
            errors.append(("record", pend[0][0].loc, "%s: operands are recorded after the statement they belong to was closed" % c.text))
        return {"D": D, "live": live, "dead": dead, "errors": errors, "nreg": nreg, "nstmt": nstmt}


def _work(a):
    case, js, lay, parts, flay = a
    FREAL_LAY.update(flay or {})
    try:
        ck = None
        try:
            ck = par.guarded(lambda: SeqCheck(case, js, lay))
            par.guarded(lambda: ck.check(parts))
        except par.Timeout:
            if ck is None:
                return [], {"cut": 1}, "out of time"
            ck.stats["cut"] = 1
        return ck.viol, ck.stats, None
    except (Inconclusive, Unknown, NoEval, OutOfDomain) as e:
        return [], {}, "%s: %s" % (type(e).__name__, e)
    except UB as e:
        return [("value", "driver of " + case.text, "%s: undefined behaviour reached: %s" % (case.text, e))], {}, None


def run_seqs(tms, cfg="default", parts=(), gen=seqs, tag="seq_"):
    groups = [(tm, gen(tm)) for tm in tms]
    built = pmap(lambda g: build(tag + g[0], [c.driver() for c in g[1]], cfg=cfg, probes=g[0]), groups)
    fl = build("lay", [], cfg=cfg, probes="F")[1] if "RF" in tms else None
    jobs, bad = [], []
    for (tm, cs), (fns, lay, failed, js) in zip(groups, built):
        for d, m in failed:
            bad.append((d.meta["case"], m))
        fs = set(id(d.meta["case"]) for d, _ in failed)
        for c in cs:
            if id(c) not in fs:
                jobs.append((c, fns["drv_" + c.name], lay, parts, fl))
    with multiprocessing.Pool(min(8, os.cpu_count() or 8)) as pool:
        res = pool.map(_work, jobs, chunksize=2)
    return [(j[0],) + r for j, r in zip(jobs, res)], bad
