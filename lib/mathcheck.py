"""Value, partial derivatives and recording of every mathematical operation,
for every kind of operand, decided on the normalised IR."""
import itertools, multiprocessing, os, random, sys
import termeval, par
from adsem import *
from mathspec import S, SKIP, DIFF, INT_PTS

UNARY = ["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "log", "log10",
         "log2", "log1p", "exp", "exp2", "expm1", "sqrt", "cbrt", "erf", "erfc", "abs", "fabs", "floor", "ceil", "trunc",
         "round", "degrees", "radians"]
BIN_CALL = ["pow", "max", "min", "fmax", "fmin", "fmod", "atan2", "hypot", "smooth_abs", "nextafter", "remainder"]
INFIX = {"add": "+", "sub": "-", "mul": "*", "div": "/"}
STD_NAMES = set("abs acos acosh asin asinh atan atan2 atanh cbrt ceil cos cosh erf erfc exp exp2 expm1 fabs floor fmax fmin fmod "
                "frexp hypot ldexp log log10 log1p log2 max min modf nextafter pow remainder remquo round scalbn sin sinh sqrt tan tanh trunc copysign".split())


class Case:
    """op applied to operands of given kinds; operand kinds:
       L active lvalue, E expression u*v, U expression -u, S nested scalar, I int, f other floating scalar"""

    def __init__(self, tm, op, kinds, spec=None, qual="xad::", expr=None, intarg=False, form="construct"):
        self.tm, self.op, self.kinds, self.spec = tm, op, kinds, spec or op
        self.qual, self.intarg, self.expr, self.form = qual, intarg, expr, form
        q = "std_" if qual == "std::" else ""
        self.name = "%s_%s%s_%s%s" % (tm, q, op, "".join(kinds), "" if form == "construct" else "_" + form)

    def driver(self):
        T = TYPES[self.tm]
        params = [(T + "*", "out")]
        ops, self.leaves, self.args = [], [], []
        k = 0

        def leaf(ty, kind):
            nonlocal k
            n = "p%d" % k
            k += 1
            params.append((ty, n))
            self.leaves.append((n, kind, len(params) - 1))
            return n
        ref = "const %s& __restrict" % T
        self.pre = ""
        for kd in self.kinds:
            if kd == "L":
                n = leaf(ref, "A"); ops.append(n); self.args.append(("L", n))
            elif kd == "E":
                a, b = leaf(ref, "A"), leaf(ref, "A")
                ops.append("(%s * %s)" % (a, b)); self.args.append(("E", a, b))
            elif kd == "U":
                a = leaf(ref, "A"); ops.append("(-%s)" % a); self.args.append(("U", a))
            elif kd == "S":
                n = leaf(NEST[self.tm], "S"); ops.append(n); self.args.append(("L", n))
            elif kd == "f":
                n = leaf("float" if NEST[self.tm] == "double" else "double", "S"); ops.append(n); self.args.append(("L", n))
            elif kd == "I":
                n = leaf("int", "I"); ops.append(n); self.args.append(("L", n))
            elif kd == "P":
                params.append(("int* __restrict", "ip")); ops.append("ip")
            elif kd == "M":
                params.append((NEST[self.tm] + "* __restrict", "dp")); ops.append("dp")
        if self.expr:
            e = self.expr.format(*ops)
        elif self.op in INFIX:
            e = "%s %s %s" % (ops[0], INFIX[self.op], ops[1])
        elif self.op == "neg":
            e = "-" + ops[0]
        elif self.op == "pos":
            e = "+" + ops[0]
        else:
            e = "%s%s(%s)" % (self.qual, self.op, ", ".join(ops))
        if self.form == "construct":
            body = "::new ((void*)out) %s(%s);" % (T, e)
        elif self.form == "auto":
            body = "auto e_ = %s; ::new ((void*)out) %s(e_);" % (e, T)
        self.text = "%s [%s] %s" % (e, ", ".join("%s %s" % (t.replace(" __restrict", ""), n) for t, n in params[1:]), self.form)
        return Driver(self.name, params, body, meta={"case": self})


def cases(tm, full=True):
    out = []
    r = lambda *a, **k: out.append(Case(tm, *a, **k))
    AE = ["L", "E"]
    for op in UNARY:
        for k in AE + (["U"] if full else []):
            r(op, [k])
    for op in UNARY + ["smooth_abs1"]:
        if op in STD_NAMES and full:
            r(op, ["L"], qual="std::")
            r(op, ["E"], qual="std::")
    for k in AE:
        r("neg", [k]); r("pos", [k])
        r("smooth_abs1", [k], expr="xad::smooth_abs({0})")
    sc = ["S", "I"] + (["f"] if full else [])
    for op in list(INFIX) + BIN_CALL:
        for a in AE:
            for b in AE:
                r(op, [a, b])
            for s in sc:
                if op in ("max", "min") and s != "S":
                    continue
                if op in ("nextafter",) and s != "S":
                    continue
                r(op, [a, s]); r(op, [s, a])
        if op in STD_NAMES and full:
            for ks in (["L", "L"], ["E", "L"], ["L", "S"], ["S", "L"], ["E", "S"], ["S", "E"]):
                r(op, ks, qual="std::")
    for op in ("smooth_max", "smooth_min"):
        for ks in (["L", "L", "L"], ["L", "L", "S"], ["E", "L", "S"], ["L", "S", "S"], ["S", "L", "S"], ["S", "E", "L"]):
            r(op, ks)
        for ks in (["L", "L"], ["E", "L"], ["L", "S"], ["S", "L"]):
            r(op + "2", ks, expr="xad::%s({0}, {1})" % op)
    for k in AE:
        r("ldexp", [k, "I"], intarg=True)
        r("scalbn", [k, "I"], intarg=True)
        r("pown", [k, "I"], spec="pow")
        r("frexp", [k, "P"])
        r("modf", [k, "M"])
        for k2 in ("L", "E", "S"):
            r("copysign", [k, k2])
    for a, b in (("L", "L"), ("L", "E"), ("E", "L"), ("E", "E"), ("L", "S"), ("S", "L"), ("E", "S"), ("S", "E"), ("L", "I"), ("I", "L")):
        r("remquo", [a, b, "P"])
    # composed expressions: the chain rule across nodes
    for nm, ex, sp_ in COMPOSED:
        r(nm, ["L"] * 3, expr=ex, spec=sp_)
        r(nm, ["L"] * 3, expr=ex, spec=sp_, form="auto")
    # functions with an output parameter, used twice with the same one before the derivatives are taken
    for form in ("construct", "auto"):
        r("c_frexp2", ["L", "L", "P"], expr="xad::frexp({0}, {2}) + xad::frexp({1}, {2})", form=form)
        r("c_frexpr", ["L", "L", "P"], expr="xad::frexp({0} * xad::frexp({1}, {2}), {2})", form=form)
        r("c_modf2", ["L", "L", "M"], expr="xad::modf({0}, {2}) * xad::modf({1}, {2})", form=form)
        r("c_remquo2", ["L", "L", "P"], expr="xad::remquo({0}, {1}, {2}) * xad::remquo({1}, {0}, {2})", form=form)
    return out


from mathspec import Spec
COMPOSED = []


def _comp(nm, ex, val, **kw):
    S[nm] = Spec(nm, 3, lambda s, n: val(*s), **kw)
    COMPOSED.append((nm, ex, nm))


_comp("c_sq", "{0} * {0} + {1} * {0} - {2}", lambda a, b, c: a * a + b * a - c)
_comp("c_nest", "xad::exp(xad::sin({0}) * {1}) / (1.0 + {2} * {2})", lambda a, b, c: sp.exp(sp.sin(a) * b) / (1 + c * c))
_comp("c_rep", "xad::pow({0} * {0} + 1.0, {1}) * xad::sqrt({1} * {1} + {0} * {0} + 2) - xad::log({2} * {2} + 3.0)",
      lambda a, b, c: (a * a + 1) ** b * sp.sqrt(b * b + a * a + 2) - sp.log(c * c + 3))
_comp("c_div", "({0} - {1}) / ({1} * {1} + 1.0) * ({2} / 2.0 - 3 / ({0} * {0} + 4))",
      lambda a, b, c: (a - b) / (b * b + 1) * (c / 2 - 3 / (a * a + 4)))
_comp("c_neg", "-(-{0} * (+{1})) - (2 - {2}) * -{2}", lambda a, b, c: a * b + (2 - c) * c)

GRID = [-25.6, -9.3, -2.7, -1.3, -1.0, -0.62, -0.31, -0.0004, 0.0, 0.0007, 0.29, 0.58, 1.0, 1.7, 2.2, 3.1, 9.3]


def f32(x):
    import struct
    return struct.unpack("f", struct.pack("f", x))[0]


def points(case, sp_, rng, n):
    """witness points for the leaves of a case"""
    kinds = [k for _, k, _ in case.leaves]
    argk = case.args
    pts = []

    def put(vals):
        # vals: one value per operand; split products over their factors
        row, i = [], 0
        for ak, v in zip(argk, vals):
            kd = case.kinds[[j for j, x in enumerate(case.kinds) if x not in "PM"][i]]
            i += 1
            if ak[0] == "E":
                row += [2.0, v / 2.0] if rng.random() < 0.5 else [-0.5, v * -2.0]
            elif ak[0] == "U":
                row.append(-v)
            elif kd == "I":
                row.append(int(round(v)))
            else:
                row.append(v)
        return row
    nop = len(argk)
    extra = [tuple(p) for p in (sp_.pts or [])]
    cand = list(extra)
    if nop == 1:
        cand += [(g,) for g in GRID] + [(rng.uniform(-4, 4),) for _ in range(6)] + [(rng.uniform(-1, 1),) for _ in range(6)]
    else:
        if nop == 2:
            some = [-2.7, -1.0, -0.31, 0.0, 0.29, 1.0, 2.2, 3.0]
            cand += list(itertools.product(some, some))
        else:
            some = [-1.3, 0.29, 2.2]
            cand += list(itertools.product(some, repeat=nop))
        cand += [tuple(rng.uniform(-4, 4) for _ in range(nop)) for _ in range(8)]
        cand += [tuple(rng.uniform(0, 3) for _ in range(nop)) for _ in range(8)]
    seen = set()
    for c in cand[:]:
        row = put(c)
        if case.tm.endswith("f") or "f" in case.kinds:
            row = [x if isinstance(x, int) else f32(x) for x in row]
        if tuple(row) not in seen:
            seen.add(tuple(row))
            pts.append(row)
    return pts


class Inconclusive(Exception):
    pass


class CaseCheck:
    def __init__(self, case, js, lay):
        self.case, self.lay = case, lay
        self.fn = analyse(js)
        self.viol = []
        self.stats = {"points": 0, "leafterms": 0, "proved": 0, "tested": 0, "outofdomain": 0}
        self.tm = case.tm
        self.single = case.tm.endswith("f") or "f" in case.kinds
        self.tol = mp.mpf("1e-5") if self.single else mp.mpf("1e-12")
        # inverse layout
        self.inv = {o: n for n, o in lay.items()}
        self.syms = {}
        for n, k, ai in case.leaves:
            if k == "A":
                self.syms[n] = sp.Symbol(n, real=True)
                for fld in lay:
                    if fld not in ("v",) and "slot" not in fld:
                        self.syms[n + "." + fld] = sp.Symbol("%s_%s" % (n, fld), real=True)
            else:
                self.syms[n] = sp.Symbol(n, integer=True) if k == "I" else sp.Symbol(n, real=True)
        self.byarg = {ai: (n, k) for n, k, ai in case.leaves}
        self.proved = {}
        self.refined = False   # in a region reached by boundary refinement (operands may cancel there)

    # leaf term -> (leaf name, field)
    def leafof(self, t):
        if t.op == "arg" and t.k in self.byarg:
            n, k = self.byarg[t.k]
            if k != "A":
                return n, "v"
            return None
        if t.op == "mem":
            p = t.a[0]
            if p.op == "ptr":
                b, off = p.a[0], p.k
                if len(p.a) > 1:
                    return None
            else:
                b, off = p, 0
            if b.op == "arg" and b.k in self.byarg and off in self.inv:
                return self.byarg[b.k][0], self.inv[off]
        return None

    def env(self, vals, slots, dots):
        def f(t):
            l = self.leafof(t)
            if l:
                n, fld = l
                if fld == "v":
                    v = vals[n]
                    return v if isinstance(v, int) else mp.mpf(v)
                if "slot" in fld:
                    return slots.get((n, fld), -1)
                return dots[n + "." + fld]
            if t.op == "tape":
                return 4096
            if t.op == "fresh":
                return 1000 + t.k[1]
            return None
        return f

    def symleaf(self, t):
        l = self.leafof(t)
        if l:
            n, fld = l
            if fld == "v":
                return self.syms[n]
            if "slot" in fld:
                raise NoEval("slot in arithmetic")
            return self.syms[n + "." + fld]
        return None

    def where(self, term):
        """source position of the deepest library frame that produced the term"""
        best = None
        st = [term]
        seen = set()
        while st:
            t = st.pop()
            if not isinstance(t, T) or t.id in seen:
                continue
            seen.add(t.id)
            if t.loc:
                s = [x for x in t.loc if "/XAD/" in x[0] or "Tape.cpp" in x[0]]
                if s and (best is None):
                    best = s
            st.extend(reversed([x for x in t.a if isinstance(x, T)]))
        if best:
            fr = [x for x in best if x[2] not in ("value", "getValue", "derived")]
            x = (fr or best)[0]
            return "%s:%d (%s)" % (re.sub(r".*/src/", "src/", x[0]), x[1], x[2])
        return "driver of " + self.case.text

    def compare(self, what, term, expect, ev, subs, desc):
        """term at this point's region vs the reference expression"""
        leaf = ev.resolve(term)
        key = (what, leaf.id, expect)
        try:
            got = ev.num(leaf)
            if isinstance(got, bool):
                got = int(got)
        except OutOfDomain:
            got = None
        except UB as e:
            self.bad(what, leaf, "%s: undefined behaviour: %s" % (desc, e), subs)
            return
        except NoEval as e:
            raise Inconclusive("cannot interpret %s" % e)
        try:
            want = sp_num(sp.sympify(expect), subs)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            self.stats["outofdomain"] += 1
            return
        if isinstance(want, mp.mpc):
            if abs(want.imag) > 1e-20:
                self.stats["outofdomain"] += 1
                return
            want = want.real
        if not mp.isfinite(want):
            self.stats["outofdomain"] += 1
            return
        if got is None:
            self.bad(what, leaf, "%s is undefined where the mathematical value is %s" % (desc, mp.nstr(want, 12)), subs)
            return
        self.stats["points"] += 1
        if not close(got, want, self.tol) and not abs(got - want) < getattr(self.case, 'abstol', 0) and not (self.single and self.refined and abs(got - want) < 1e-4 * (1 + max(abs(mp.mpf(v)) for v in subs.values()))):
            self.bad(what, leaf, "%s: the code computes %s, which is %s; the mathematical value is %s = %s"
                     % (desc, show(leaf), mp.nstr(got, 12), expect, mp.nstr(mp.mpf(want), 12)), subs)
            return
        if key not in self.proved:
            self.stats["leafterms"] += 1
            try:
                r = None if getattr(self.case, "witness_only", False) else equal_sym(ToSym(self.symleaf, self.single, ev).sym(leaf), sp.sympify(expect))
            except NoEval:
                r = None
            self.proved[key] = r
            self.stats["proved" if r else "tested"] += 1

    def bad(self, what, leaf, msg, subs):
        pt = ", ".join("%s=%s" % (k, mp.nstr(mp.mpf(v), 8)) for k, v in sorted(subs.items(), key=lambda kv: str(kv[0])))
        self.viol.append((what, self.where(leaf), "%s [region of %s]" % (msg, pt)))

    # -------------------------------------------------------------- expected values
    def expectation(self, vals):
        """reference value expression and partials by leaf, or None outside the domain"""
        c = self.case
        sp_ = S[c.spec]
        aexp, anum = [], []
        for a in c.args:
            if a[0] == "L":
                aexp.append(self.syms[a[1]]); anum.append(mp.mpf(vals[a[1]]))
            elif a[0] == "E":
                aexp.append(self.syms[a[1]] * self.syms[a[2]]); anum.append(mp.mpf(vals[a[1]]) * mp.mpf(vals[a[2]]))
            else:
                aexp.append(-self.syms[a[1]]); anum.append(-mp.mpf(vals[a[1]]))
        try:
            if not sp_.dom(*anum):
                return None
        except (ZeroDivisionError, ValueError):
            return None
        key = None
        A = [sp.Symbol("A%d" % i, real=True) for i in range(len(aexp))]
        # a scalar integer operand stays an integer symbol (powers of two)
        for i, a in enumerate(c.args):
            if a[0] == "L" and self.syms[a[1]].is_integer:
                A[i] = sp.Symbol("A%d" % i, integer=True)
        e = sp_.val(A, anum)
        kk = sp_.kink(*anum)
        if sp_.name in ("max", "min") and c.kinds in (["E", "E"], ["U", "U"]) and kk is not None:
            kk = SKIP   # both operands have one type: std::max picks one of them, a valid subgradient
        mkey = (e, tuple(kk) if isinstance(kk, list) else kk)
        if not hasattr(self, "_ex"):
            self._ex = {}
        if mkey in self._ex:
            return self._ex[mkey]
        sub = dict(zip(A, aexp))
        val = e.subs(sub, simultaneous=True)
        leaves = [n for n, k, _ in c.leaves if k == "A"]
        if kk == SKIP:
            d1 = None
        else:
            P = [sp.diff(e, x) if k is DIFF else k if k is SKIP else sp.sympify(k) for x, k in zip(A, kk or [DIFF] * len(A))]
            d1 = {}
            for n in leaves:
                x = self.syms[n]
                if any(p is SKIP and ae.has(x) for p, ae in zip(P, aexp)):
                    d1[n] = None
                    continue
                d1[n] = sum((p.subs(sub, simultaneous=True) * sp.diff(ae, x) for p, ae in zip(P, aexp) if p is not SKIP), sp.Integer(0))
        d2 = None
        if kk is None and None not in d1.values():
            d2 = {n: {m: sp.diff(d1[n], self.syms[m]) for m in leaves} for n in leaves}
        r = (val, d1, d2)
        self._ex[mkey] = r
        return r

    # -------------------------------------------------------------- run
    def scenarios(self):
        act = [n for n, k, _ in self.case.leaves if k == "A"]
        if "slot" in self.lay:
            sc = [tuple(act), ()]
            if len(act) > 1:
                sc += [(a,) for a in act]
            return sc
        return [tuple(act)]

    def outfield(self, fld, mem):
        p = mk("arg", (), 0)
        t = self.fn.load(mem, self.fn.padd(p, self.lay[fld]), None, 4 if ("slot" in fld or self.tm.endswith("f")) else 8)
        return t

    def check(self, parts=("value", "deriv", "record")):
        c = self.case
        rng = random.Random("%s/%d" % (c.name, SEED))
        ex = [e for e in self.fn.exits if e[1] == "ret"]
        if len(ex) != 1:
            raise Inconclusive("%d exits" % len(ex))
        mem = ex[0][3]
        act = [n for n, k, _ in c.leaves if k == "A"]
        sp_ = S[c.spec]
        names = [n for n, _, _ in c.leaves]
        dn = [n + "." + fld for n in act for fld in self.lay if fld != "v" and "slot" not in fld]
        rows = [(dict(zip(names, row)), None) for row in points(c, sp_, rng, 30)]
        full = {(n, "slot"): 7 + i for i, n in enumerate(act)} if "slot" in self.lay else {}
        guards, stage, used = termeval.guards_on(), 0, []
        while True:
            if not rows:
                if stage >= 2 or not used:
                    break
                stage += 1
                self.refined = True
                mkenv = lambda r: self.env({n: r[n] for n in names}, full, {k: r[k] for k in dn})
                rows = [({n: r[n] for n in names}, {k: r[k] for k in dn}) for r in
                        termeval.refine(dict(guards), used[:: max(1, len(used) // 6)], mkenv)]
                self.stats["boundary"] = self.stats.get("boundary", 0) + len(rows)
                if not rows:
                    break
            vals, given = rows.pop(0)
            if self.single:
                vals = {k: v if isinstance(v, int) else f32(float(v)) for k, v in vals.items()}
            e = self.expectation(vals)
            if e is None:
                continue
            val, d1, d2 = e
            dots = dict(given) if given else {}
            if not given:
                for k in dn:
                    dots[k] = mp.mpf(rng.choice([0.37, -1.21, 2.05, 0.83])) + rng.randint(0, 3)
            used.append(dict(vals, **dots))
            subs = {self.syms[n]: (v if isinstance(v, int) else mp.mpf(v)) for n, v in vals.items()}
            for k, v in dots.items():
                subs[self.syms[k]] = v
            for rec in self.scenarios():
                slots = {}
                for i, n in enumerate(rec):
                    slots[(n, "slot")] = 7 + i
                ev = Evaluator(self.env(vals, slots, dots))
                if "value" in parts:
                    tv = self.outfield("v", mem)
                    self.compare("value", tv, val, ev, subs, "value of %s" % c.text)
                    if sp_.root and rec == self.scenarios()[0]:
                        self.rootcheck(tv, ev, sp_.root, subs)
                if "slot" in self.lay:
                    self.reverse(ev, rec, slots, d1, d2, subs, mem, parts, dots)
                elif "deriv" in parts:
                    self.forward(ev, val, d1, d2, subs, mem)
            if len(self.viol) > 6:
                break
        return self

    def rootcheck(self, tv, ev, root, subs):
        leaf = ev.resolve(tv)
        while leaf.op in ("fpext", "fptrunc"):
            leaf = leaf.a[0]
        n = canon_fn(leaf.k) if leaf.op == "call" else leaf.op
        if n != root:
            self.bad("value", leaf, "value of %s is computed as %s, not by the library function %s (different rounding and special cases)"
                     % (self.case.text, show(leaf), root), subs)

    def forward(self, ev, val, d1, d2, subs, mem):
        act = [n for n, k, _ in self.case.leaves if k == "A"]
        if d1 is None or None in d1.values():
            return
        if "d" in self.lay:
            exp = sum((d1[n] * self.syms[n + ".d"] for n in act), sp.Integer(0))
            self.compare("deriv", self.outfield("d", mem), exp, ev, subs, "forward derivative of %s" % self.case.text)
        if "dd" in self.lay:
            for fld in ("vd", "dv"):
                exp = sum((d1[n] * self.syms[n + "." + fld] for n in act), sp.Integer(0))
                self.compare("deriv", self.outfield(fld, mem), exp, ev, subs, "first derivative (%s) of %s" % (fld, self.case.text))
            if d2 is not None:
                exp = sum((d1[n] * self.syms[n + ".dd"] for n in act), sp.Integer(0))
                for n in act:
                    for m in act:
                        exp += d2[n][m] * self.syms[n + ".dv"] * self.syms[m + ".vd"]
                self.compare("deriv2", self.outfield("dd", mem), exp, ev, subs, "second derivative of %s" % self.case.text)

    # reverse mode: meaning of the recorded statements
    def reverse(self, ev, rec, slots, d1, d2, subs, mem, parts, dots):
        """D[slot]: derivative of the value held in that slot w.r.t. each recorded leaf, as (value, dot) terms"""
        c = self.case
        scalar_ty = TYPES[self.tm][len("xad::AReal<"):-1].strip()
        second = self.tm == "RF"
        one, zero = (mk("cf", (), 1.0), mk("cf", (), 0.0))
        D, pend, live, dead = {}, [], [], []
        for (n, f), s in slots.items():
            D[s] = {n: (one, zero)}
            live.append(s)
        nreg = nstmt = 0
        rep = lambda loc, msg: self.viol.append(("record", locstr(loc) if loc else "driver of " + c.text, msg)) if "record" in parts else None
        for e in self.fn.events:
            try:
                if not ev.num(e.cond):
                    continue
            except OutOfDomain:
                raise Inconclusive("event condition undefined")
            kind, ty = evkind(e)
            if kind is None:
                if e.noret or "throw" in e.name:
                    raise Inconclusive("event " + e.name)
                continue
            if ty.replace(" ", "") != scalar_ty.replace(" ", ""):
                continue
            if kind == "registerVariable":
                s = ev.num(e.res)
                live.append(s)
                nreg += 1
            elif kind == "unregisterVariable":
                s = ev.num(e.args[1])
                if s not in live or s in slots.values():
                    rep(e.loc, "%s releases slot %s which it does not own" % (c.text, s))
                else:
                    live.remove(s)
                    dead.append(s)
            elif kind == "pushRhs":
                s = ev.num(e.args[2])
                pend.append((e, s))
                if s not in D:
                    rep(e.loc, "%s records an operand in slot %s that no statement defines" % (c.text, s))
                elif s in dead:
                    rep(e.loc, "%s records an operand whose slot %s was already released" % (c.text, s))
            elif kind == "pushLhs":
                s = ev.num(e.args[1])
                if s not in live:
                    rep(e.loc, "%s records a statement for slot %s that is not registered" % (c.text, s))
                acc = {}
                for pe, ps in pend:
                    m = (self.mult(pe, "v"), self.mult(pe, "d") if second else zero)
                    for n, t in D.get(ps, {}).items():
                        p = (self.tmul(m[0], t[0]), self.tadd(self.tmul(m[0], t[1]), self.tmul(m[1], t[0])))
                        acc[n] = (self.tadd(acc[n][0], p[0]), self.tadd(acc[n][1], p[1])) if n in acc else p
                D[s] = acc
                pend = []
                nstmt += 1
            elif kind in ("pushAll", "derivative", "setDerivative", "getDerivative"):
                raise Inconclusive(kind)
        outslot = ev.num(self.outfield("slot", mem))
        self.stats["points"] += 1
        if pend:
            rep(pend[0][0].loc, "%s: operands are recorded after the statement they belong to was closed" % c.text)
        own = [s for s in live if s not in slots.values()]
        if outslot in own:
            own.remove(outslot)
        elif outslot != -1:
            rep(None, "%s: the result's slot %s was not registered for it" % (c.text, outslot))
        if own:
            rep(None, "%s: %d slots are registered and never released nor owned by the result" % (c.text, len(own)))
        if not rec and (nstmt or nreg or outslot != -1):
            rep(None, "%s has no recorded operand but something is recorded" % c.text)
        if nstmt > 1 and c.form in ("construct", "auto"):
            rep(None, "%s is recorded as %d statements, it is one expression" % (c.text, nstmt))
        if not rec or d1 is None:
            return
        if outslot == -1:
            for n in rec:
                if d1[n] is None:
                    continue
                try:
                    w = sp_num(sp.sympify(d1[n]), subs)
                except (ZeroDivisionError, ValueError, OverflowError, TypeError):
                    continue
                if isinstance(w, mp.mpc) or not mp.isfinite(w) or w == 0:
                    continue
                rep(None, "%s has derivative %s w.r.t. recorded %s, but its result is not recorded [%s]"
                    % (c.text, mp.nstr(w, 8), n, ", ".join("%s=%s" % (k, mp.nstr(mp.mpf(v), 8)) for k, v in subs.items())))
            return
        if outslot not in D:
            rep(None, "%s: no statement defines the result's slot" % c.text)
            return
        if "deriv" not in parts:
            return
        for n in rec:
            t = D[outslot].get(n, (zero, zero))
            if d1[n] is None:
                continue
            self.compare("deriv", t[0], d1[n], ev, subs, "adjoint multiplier of %s w.r.t. %s" % (c.text, n))
            if second and d2 is not None:
                exp = sum((d2[n][m] * self.syms[m + ".vd"] for m in d2[n]), sp.Integer(0))
                self.compare("deriv2", t[1], exp, ev, subs, "second-order multiplier of %s w.r.t. %s" % (c.text, n))

    @staticmethod
    def tmul(a, b):
        if a.op == "cf" and a.k == 1.0:
            return b
        if b.op == "cf" and b.k == 1.0:
            return a
        if b.op == "cf" and b.k == 0.0:
            return b
        return mk("fmul", (a, b))

    @staticmethod
    def tadd(a, b):
        if b.op == "cf" and b.k == 0.0:
            return a
        if a.op == "cf" and a.k == 0.0:
            return b
        return mk("fadd", (a, b))

    def mult(self, e, fld):
        p = e.args[1]
        if self.tm in ("R", "Rf"):
            return self.fn.load(e.snap, p, None, 4 if self.tm == "Rf" else 8)
        off = {"v": FREAL_LAY["v"], "d": FREAL_LAY["d"]}[fld]
        return self.fn.load(e.snap, self.fn.padd(p, off), None, 8)


FREAL_LAY = {"v": 0, "d": 8}


def _work(a):
    case, js, lay, parts, flay = a
    FREAL_LAY.update(flay or {})
    try:
        ck = None
        try:
            ck = par.guarded(lambda: CaseCheck(case, js, lay))
            par.guarded(lambda: ck.check(parts))
        except par.Timeout:
            if ck is None:
                return case.name, [], {"cut": 1}, "out of time"
            ck.stats["cut"] = 1
        return case.name, ck.viol, ck.stats, None
    except (Inconclusive, Unknown, NoEval) as e:
        return case.name, [], {}, "%s: %s" % (type(e).__name__, e)
    except UB as e:
        return case.name, [("deriv", "driver of " + case.text, "%s: undefined behaviour reached: %s" % (case.text, e))], {}, None
    except OutOfDomain as e:
        return case.name, [], {}, "out of domain"
    except RecursionError:
        return case.name, [], {}, "too deep"


def run_cases(tms, parts, cfg="default", full=True, std="c++17", select=None):
    """returns list of (case, viol, stats, unresolved) and list of (case, message) not compiling"""
    groups = []
    for tm in tms:
        cs = [c for c in cases(tm, full) if select is None or select(c)]
        n = max(1, min(4, len(cs) // 60))
        for i in range(n):
            groups.append((tm, i, cs[i::n]))

    def b(g):
        tm, i, cs = g
        ds = [c.driver() for c in cs]
        return build("math_%s_%d" % (tm, i), ds, cfg=cfg, probes=tm, std=std)
    built = pmap(b, groups)
    fl = None
    if "RF" in tms:
        fl = build("lay", [], cfg=cfg, probes="F")[1]
    jobs, bad = [], []
    for (tm, i, cs), (fns, lay, failed, js) in zip(groups, built):
        if "v" not in lay:
            raise Broken("cannot read the layout of " + TYPES[tm])
        for d, m in failed:
            bad.append((d.meta["case"], m))
        fs = set(id(d.meta["case"]) for d, _ in failed)
        for c in cs:
            if id(c) in fs:
                continue
            jobs.append((c, fns["drv_" + c.name], lay, parts, fl))
    with multiprocessing.Pool(min(8, os.cpu_count() or 8)) as pool:
        res = pool.map(_work, jobs, chunksize=4)
    return [(j[0],) + r[1:] for j, r in zip(jobs, res)], bad
