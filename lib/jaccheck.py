"""Jacobian and Hessian drivers: entries as polynomials in symbolic inputs, against derivatives of the reference polynomials."""
import absint, tapesim
from absint import P, num, sym, ZERO
from tapesim import Mismatch, at, dem_ti

FN = ("e_jaca", "e_jacf", "e_hesa", "e_hesf")
WHO = {"e_jaca": "computeJacobian (adjoint)", "e_jacf": "computeJacobian (forward)", "e_hesa": "computeHessian (forward over adjoint)",
       "e_hesf": "computeHessian (forward over forward)"}


def term(v, sel):
    n = len(v)
    if n == 0:
        return num(3)
    k = sel % 7
    if k == 0:
        r = v[0]
        for x in v[1:]:
            r = r * x
        return r
    if k == 1:
        return v[(sel // 7) % n]
    if k == 2:
        return num(3)
    if k == 3:
        u = v[0] * v[n - 1]
        return u * v[0] + u
    if k == 4:
        return v[n - 1] + v[n - 1]
    if k == 5:
        u = v[0] * v[0] * v[0]
        return u * v[n // 2] - u
    u = ZERO
    for i, x in enumerate(v):
        u = u + x * x * num(i + 1)
    return u


def diff(p, x):
    """derivative of a polynomial by a symbol"""
    (mono, _), = x.t.items()
    a, = mono
    r = ZERO
    for m, c in p.t.items():
        k = m.count(a)
        if k:
            q = list(m)
            q.remove(a)
            r = r + P({tuple(q): c * k}, 0.0)
    return r


class Jac:
    def __init__(self, sc, ch, cfg):
        self.sim = tapesim.Sim.__new__(tapesim.Sim)
        self.mod = tapesim.module("jac", sc, ch, cfg)
        self.M = absint.Machine(self.mod)
        self.n = 4 if sc == "float" else 8
        self.clean = self.M.snapshot()

    def run(self, fn, n, m, sel, how, tape, rows=None, cols=None):
        M = self.M
        M.restore(self.clean)
        M.sp, M.throws = [], {}
        x = M.alloc(256, "global", "inputs")
        out = M.alloc(1024, "global", "matrix")
        more = M.alloc(16, "global", "more")
        base = set(r.id for r in M.leaks())
        xs = [sym("x%d" % i, 0.3 + 0.4 * i) for i in range(n)]
        for i, v in enumerate(xs):
            M.store(x + i * self.n, self.n, v)
        M.store(more, self.n, num(12))
        hess = fn.startswith("e_hes")
        R, C = (n, n) if hess else (m, n)
        bad = rows is not None
        self.last = WHO[fn]
        if bad:
            st, v = M.call("e_try", FN.index(fn), n, m, sel, x, out, rows, cols, tape, more)
            if st != "ok":
                raise Mismatch("throw", "throws %s" % dem_ti(v))
            if v != 1:
                raise Mismatch("size", "a matrix of %d x %d is accepted for %d x %d entries, without OutOfRange" % (rows, cols, R, C))
        else:
            st, v = M.call(fn, n, m, sel, x, out, how, R, C, tape, more)
            if st != "ok":
                raise Mismatch("throw", "throws %s" % dem_ti(v))
            s64 = v - (1 << 64) if v >> 63 else v
            if s64 == -2:
                raise Mismatch("active", "a tape is left active")
            if s64 == -3:
                raise Mismatch("tape", "the tape is left with other variables, or deactivated")
            if s64 != R * 100 + (C if R else 0):
                raise Mismatch("size", "the matrix has %d rows and %d columns, not %d and %d" % (s64 // 100, s64 % 100, R, C))
            for i in range(R):
                f = term(xs, sel) if hess else term(xs, sel + i * (1 if sel % 3 else 2))
                for j in range(C):
                    got = M.load(out + (i * C + j) * self.n, self.n)
                    if isinstance(got, int):
                        got = absint.i2f(got, self.n)
                    want = diff(diff(f, xs[i]), xs[j]) if hess else diff(f, xs[j])
                    if got is absint.UNDEF or got.t != want.t:
                        raise Mismatch("entry", "entry (%d, %d) is %r, it has to be %r" % (i, j, got, want))
            got = M.load(more, self.n)
            if isinstance(got, int):
                got = absint.i2f(got, self.n)
            if tape and got.t != num(12).t:
                raise Mismatch("tape", "the tape gives a wrong derivative afterwards")
        left = [r for r in M.leaks() if r.id not in base]
        if left:
            raise Mismatch("leak", "%d allocation(s) are never released" % len(left))


def cases(tier):
    big = tier != "quick"
    for fn in FN:
        hess = fn.startswith("e_hes")
        for n in range(0, 4 if not big else 6):
            for m in range(0, 5 if not big else 8) if not hess else (1,):
                for sel in range(7 if hess or n == 0 else 14):
                    if not hess and not big and sel % 2 == (n + m) % 2:
                        continue
                    for how in (0, 1):
                        for tape in (0, 1, 2) if fn in ("e_jaca", "e_hesa") else (0,):
                            if not big and how == 1 and tape == 1:
                                continue
                            yield fn, n, m, sel, how, tape
        for n, m in ((1, 1), (2, 3), (3, 2)):
            R, C = (n, n) if hess else (m, n)
            for r, c in ((R + 1, C), (R - 1, C), (R, C + 1), (R, C - 1)):
                if r > 0:
                    for tape in (0, 2) if fn in ("e_jaca", "e_hesa") else (0,):
                        yield fn, n, m, 3, 1, tape, r, c


def run(j, case):
    try:
        j.run(*case)
        return None
    except Mismatch as e:
        return ("viol", e.rule, at(getattr(e, "where", None))[0], e.msg)
    except absint.Viol as e:
        w, fn = at(getattr(e, "where", None))
        return ("viol", e.kind, "%s (%s)" % (w, fn), e.msg)
    except absint.Unsupported as e:
        return ("open", "%s: %s" % (at(getattr(e, "where", None))[0], e))
