"""Gated value numbering: turns the acyclic SSA form of one function into
hash-consed terms, a guarded list of events (calls that were kept opaque),
a final memory and a return value."""
import re

_tab = {}


class T:
    __slots__ = ("op", "a", "k", "id", "loc")

    def __repr__(self):
        return show(self)


def mk(op, a=(), k=None):
    key = (op, tuple(x.id if isinstance(x, T) else ("#", x) for x in a), k)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.k, t.id, t.loc = op, tuple(a), k, len(_tab), None
        _tab[key] = t
    return t


def ci(v, w=32):
    return mk("ci", (), v)


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 12:
        return "..."
    if t.op in ("ci", "cf"):
        return str(t.k)
    if t.op == "arg":
        return "arg%d" % t.k
    if t.op == "mem":
        return "[%s]" % show(t.a[0], d + 1)
    if t.op == "ptr":
        s = show(t.a[0], d + 1)
        if t.k:
            s += "+%d" % t.k
        for i in range(1, len(t.a), 2):
            s += "+%s*%d" % (show(t.a[i], d + 1), t.a[i + 1].k)
        return s
    if t.op == "fcmp" or t.op == "icmp":
        return "(%s %s %s)" % (show(t.a[0], d + 1), t.k, show(t.a[1], d + 1))
    if t.op in ("fadd", "fsub", "fmul", "fdiv", "add", "sub", "mul"):
        s = {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/", "add": "+", "sub": "-", "mul": "*"}[t.op]
        return "(%s %s %s)" % (show(t.a[0], d + 1), s, show(t.a[1], d + 1))
    n = t.op if t.k is None else "%s:%s" % (t.op, t.k)
    return "%s(%s)" % (n, ", ".join(show(x, d + 1) for x in t.a))


TRUE, FALSE = mk("true"), mk("false")


def land(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a is b:
        return a
    if (a.op == "not" and a.a[0] is b) or (b.op == "not" and b.a[0] is a):
        return FALSE
    return mk("and", (a, b))


def lnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.a[0]
    return mk("not", (a,))


def lor(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    if a is b:
        return a
    # (p & c) | (p & !c) -> p
    if a.op == "and" and b.op == "and":
        if a.a[0] is b.a[0] and a.a[1] is lnot(b.a[1]):
            return a.a[0]
    if (a.op == "not" and a.a[0] is b) or (b.op == "not" and b.a[0] is a):
        return TRUE
    return mk("or", (a, b))


def fcmp(pred, a, c):
    """one form for each floating comparison: less-than only, symmetric predicates ordered"""
    sw = {"ogt": "olt", "oge": "ole", "ugt": "ult", "uge": "ule"}
    if pred in sw:
        pred, a, c = sw[pred], c, a
    elif pred in ("oeq", "une", "one", "ueq", "ord", "uno") and a.id > c.id:
        a, c = c, a
    return mk("fcmp", (a, c), pred)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    return mk("ite", (c, a, b))


class Unknown(Exception):
    pass


class Event:
    __slots__ = ("cond", "name", "args", "snap", "loc", "idx", "res", "noret", "block")

    def __repr__(self):
        return "<%s(%s) if %s>" % (self.name, ", ".join(map(show, self.args)), show(self.cond))


def locstr(loc):
    """innermost-to-outermost source chain -> 'file:line (function)' of the innermost repo frame"""
    for f, l, fn in loc or []:
        if "/usr/" in f or "driver" in f:
            continue
        return "%s:%d (%s)" % (re.sub(r".*/src/", "src/", f), l, fn)
    if loc:
        f, l, fn = loc[0]
        return "%s:%d (%s)" % (f.split("/")[-1], l, fn)
    return "?"


SIZES = {"double": 8, "float": 4, "i32": 4, "i64": 8, "ptr": 8, "i8": 1, "i1": 1, "i16": 2}


class Mem:
    __slots__ = ("d", "copies")

    def __init__(self):
        self.d = {}      # (baseid, off, varkey) -> (term, size, ptrterm)
        self.copies = []  # (dstbase, dstoff, n, srcbase, srcoff, Mem snapshot)

    def clone(self):
        m = Mem()
        m.d = dict(self.d)
        m.copies = list(self.copies)
        return m


class Fn:
    """one normalised function"""

    def __init__(self, js, pure=None, clobber=None):
        self.js = js
        self.name = js["name"]
        self.blocks = {b["id"]: b for b in js["blocks"]}
        self.pure = pure            # callable(event dfn) -> bool: call result is a function of its args
        self.clobber = clobber      # callable(fn, dfn, args) -> list of ptr terms clobbered, or None for none
        self.val = {}
        self.events = []
        self.exits = []             # (cond, kind, retterm, mem)
        self.fresh = 0
        self.insts = {}
        for b in js["blocks"]:
            for i in b["insts"]:
                self.insts[i["id"]] = i

    # ---------------------------------------------------------------- order
    def topo(self):
        order, state = [], {}
        stack = [(0, iter(self.blocks[0]["succ"]))]
        state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state.get(s) == 1:
                    raise Unknown("loop in %s" % self.js["dname"])
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(self.blocks[s]["succ"])))
                    break
            else:
                stack.pop()
                state[b] = 2
                order.append(b)
        order.reverse()
        return order

    # ---------------------------------------------------------------- operands
    def opnd(self, o):
        k = o[0]
        if k == "i":
            return self.val[o[1]]
        if k == "a":
            return mk("arg", (), o[1])
        if k == "c":
            if o[2] == 1:
                return TRUE if o[1] else FALSE
            return mk("ci", (), o[1])
        if k == "f":
            s = o[1]
            try:
                v = float.fromhex(s) if "x" in s else float(s)
            except ValueError:
                v = float(s)
            return mk("cf", (), v)
        if k == "null":
            return mk("ci", (), 0)
        if k == "undef":
            return mk("undef", (), o[1])
        if k == "g":
            return mk("ptr", (mk("glob", (), o[1]),), 0)
        if k == "gep":
            return self.padd(self.opnd(o[1]), o[2])
        if k == "zero":
            return mk("zero", (), o[1])
        return mk("const", (), repr(o))

    def padd(self, p, off, var=()):
        if p.op == "ite":
            return ite(p.a[0], self.padd(p.a[1], off, var), self.padd(p.a[2], off, var))
        if p.op == "ptr":
            base, o0, v0 = p.a[0], p.k, p.a[1:]
        else:
            base, o0, v0 = p, 0, ()
        v = list(v0)
        for ix, sc in var:
            if ix.op == "ci":
                off += ix.k * sc
                continue
            v += [ix, mk("ci", (), sc)]
        return mk("ptr", (base,) + tuple(v), o0 + off)

    # ---------------------------------------------------------------- memory
    @staticmethod
    def pkey(p):
        if p.op == "ptr":
            return (p.a[0].id, p.k, tuple(x.id for x in p.a[1:]))
        return (p.id, 0, ())

    def store(self, mem, p, v, size):
        if p.op == "ite":
            a = mem
            # conditional target: store into both with old value kept
            for c, q in ((p.a[0], p.a[1]), (lnot(p.a[0]), p.a[2])):
                old = self.load(a, q, None, size)
                self.store(a, q, ite(c, v, old), size)
            return
        k = self.pkey(p)
        # kill overlapping, differently placed fields of the same base
        for kk in [kk for kk in mem.d if kk[0] == k[0] and kk[2] == k[2] and kk != k]:
            o, s = kk[1], mem.d[kk][1]
            if o < k[1] + size and k[1] < o + s:
                if o >= k[1] and o + s <= k[1] + size:
                    del mem.d[kk]
                else:
                    mem.d[kk] = (mk("partial", (mem.d[kk][0], v)), s, mem.d[kk][2])
        mem.d[k] = (v, size, p)

    def load(self, mem, p, ty, size):
        if p.op == "ite":
            return ite(p.a[0], self.load(mem, p.a[1], ty, size), self.load(mem, p.a[2], ty, size))
        k = self.pkey(p)
        h = mem.d.get(k)
        if h:
            if h[1] == size:
                return h[0]
            if h[1] > size:
                return self.part(h[0], 0, size)
            if size == 8 and h[1] == 4:
                return mk("wide", (h[0], self.load(mem, self.padd(p, 4), None, 4)))
            return mk("wide_load", (h[0], p), size)
        for kk, (v, s, _) in mem.d.items():
            if kk[0] == k[0] and kk[2] == k[2] and kk[1] < k[1] + size and k[1] < kk[1] + s:
                if kk[1] > k[1]:
                    if size == 8 and s == 4 and kk[1] == k[1] + 4:
                        return mk("wide", (self.load(mem, p, None, 4), v))
                    return mk("wide_load", (v, p), size)
                return self.part(v, k[1] - kk[1], size)
        for (db, do, n, sp, smem, var) in reversed(mem.copies):
            if db == k[0] and k[2] == var and do <= k[1] and k[1] + size <= do + n:
                return self.load(smem, self.padd(sp, k[1] - do), ty, size)
        base = p.a[0] if p.op == "ptr" else p
        if base.op == "alloca":
            return mk("undef", (p,), "alloca")
        return mk("mem", (p,), None)

    def part(self, v, off, size):
        """size bytes at offset off of the stored value v"""
        if v.op == "mem" and v.k is None:
            return mk("mem", (self.padd(v.a[0], off),))
        if v.op == "wide" and size == 4 and off in (0, 4):
            return v.a[off // 4]
        if v.op == "ite":
            return ite(v.a[0], self.part(v.a[1], off, size), self.part(v.a[2], off, size))
        if v.op in ("ci", "cf") and v.k == 0:
            return v
        return mk("subfield", (v,), (off, size))

    def memcpy(self, mem, dst, src, n):
        if dst.op == "ite" or src.op == "ite":
            raise Unknown("memcpy through conditional pointer")
        snap = mem.clone()
        dk = self.pkey(dst)
        for kk in [kk for kk in mem.d if kk[0] == dk[0] and kk[2] == dk[2] and dk[1] <= kk[1] < dk[1] + n]:
            del mem.d[kk]
        sk = self.pkey(src)
        for kk, (v, s, p) in snap.d.items():
            if kk[0] == sk[0] and kk[2] == sk[2] and sk[1] <= kk[1] and kk[1] + s <= sk[1] + n:
                q = self.padd(dst, kk[1] - sk[1])
                mem.d[self.pkey(q)] = (v, s, q)
        mem.copies.append((dk[0], dk[1], n, src, snap, dk[2]))

    def merge(self, parts):
        """parts: list of (edgecond, mem)"""
        if len(parts) == 1:
            return parts[0][1].clone()
        m = Mem()
        # copies: keep those common to all by identity prefix
        first = parts[0][1].copies
        allc = []
        seen = set()
        for _, pm in parts:
            for c in pm.copies:
                if id(c) not in seen:
                    seen.add(id(c))
                    allc.append(c)
        common = all(len(pm.copies) == len(first) and all(x is y for x, y in zip(pm.copies, first)) for _, pm in parts)
        m.copies = list(first) if common else allc
        keys = set()
        for _, pm in parts:
            keys.update(pm.d)
        for k in keys:
            info = next(pm.d[k] for _, pm in parts if k in pm.d)
            size, p = info[1], info[2]
            v = None
            for c, pm in reversed(parts):
                x = pm.d[k][0] if k in pm.d else self.load(pm, p, None, size)
                v = x if v is None else ite(c, x, v)
            m.d[k] = (v, size, p)
        return m

    # ---------------------------------------------------------------- main
    def run(self):
        order = self.topo()
        preds = {b: [] for b in self.blocks}
        for b in self.blocks:
            for s in set(self.blocks[b]["succ"]):
                preds[s].append(b)
        live = set(order)
        cond = {0: TRUE}
        memout = {}
        edge = {}
        for b in order:
            ps = [p for p in preds[b] if p in live]
            if b == 0:
                mem = Mem()
            else:
                es = [(edge[(p, b)], memout[p]) for p in ps]
                c = FALSE
                for e, _ in es:
                    c = lor(c, e)
                cond[b] = c
                mem = self.merge(es)
            for ins in self.blocks[b]["insts"]:
                self.step(ins, b, cond[b], mem, edge, ps)
            memout[b] = mem
        return self

    def step(self, i, b, cond, mem, edge, ps):
        op = i["op"]
        o = i["ops"]
        v = None
        if op == "phi":
            parts = []
            for val, pb in o:
                if (pb, b) in edge:
                    parts.append((edge[(pb, b)], self.opnd(val)))
            r = None
            for c, x in reversed(parts):
                r = x if r is None else ite(c, x, r)
            v = r
        elif op == "br":
            s = self.blocks[b]["succ"]
            if len(o) == 1:
                edge[(b, s[0])] = cond
            else:
                c = self.opnd(o[0])
                # operands order in LLVM: cond, false, true
                tb, fb = o[2][1], o[1][1]
                if tb == fb:
                    edge[(b, tb)] = cond
                else:
                    edge[(b, tb)] = land(cond, c)
                    edge[(b, fb)] = land(cond, lnot(c))
        elif op == "switch":
            x = self.opnd(o[0])
            rest = cond
            tgt = {}
            for cv, bb in i["cases"]:
                cc = mk("icmp", (x, mk("ci", (), cv)), "eq")
                tgt[bb] = lor(tgt.get(bb, FALSE), land(rest, cc))
                rest = land(rest, lnot(cc))
            tgt[i["def"]] = lor(tgt.get(i["def"], FALSE), rest)
            for bb, c in tgt.items():
                edge[(b, bb)] = c
        elif op == "ret":
            self.exits.append((cond, "ret", self.opnd(o[0]) if o else None, mem.clone()))
        elif op == "unreachable":
            self.exits.append((cond, "unreachable", None, mem.clone()))
        elif op == "resume":
            self.exits.append((cond, "resume", None, mem.clone()))
        elif op == "alloca":
            v = mk("ptr", (mk("alloca", (), (self.name, i["id"])),), 0)
        elif op == "getelementptr":
            if "off" not in i:
                raise Unknown("gep")
            base = self.opnd(o[0])
            v = self.padd(base, i["off"], [(self.opnd(x), s) for x, s in i["var"]])
        elif op == "load":
            p = self.opnd(o[0])
            v = self.load(mem, p, i["ty"], i["lsz"])
            if i["ty"] == "i1" or (i["ty"] == "i8" and v in (TRUE, FALSE)):
                pass
        elif op == "store":
            self.store(mem, self.opnd(o[1]), self.opnd(o[0]), i["ssz"])
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            v = mk(op, (self.opnd(o[0]), self.opnd(o[1])))
        elif op == "fneg":
            v = mk("fneg", (self.opnd(o[0]),))
        elif op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem"):
            a, c = self.opnd(o[0]), self.opnd(o[1])
            if i["ty"] == "i1":
                if op == "and":
                    v = land(a, c)
                elif op == "or":
                    v = lor(a, c)
                elif op == "xor":
                    v = lnot(a) if c is TRUE else mk("xor", (a, c))
                else:
                    v = mk(op, (a, c), i["ty"])
            else:
                v = self.arith(op, a, c, i["ty"])
        elif op in ("fcmp", "icmp"):
            a, c = self.opnd(o[0]), self.opnd(o[1])
            v = self.cmp(op, i["pred"], a, c)
        elif op == "select":
            c = self.opnd(o[0])
            v = ite(c, self.opnd(o[1]), self.opnd(o[2]))
        elif op in ("fpext", "fptrunc"):
            v = mk(op, (self.opnd(o[0]),), (i["src"], i["ty"]))
        elif op in ("sitofp", "uitofp", "fptosi", "fptoui", "zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            a = self.opnd(o[0])
            if op in ("zext", "sext", "trunc") and a.op == "ci" and i["ty"].startswith("i"):
                w = int(i["ty"][1:])
                x = a.k & ((1 << w) - 1)
                if op == "zext":
                    x = a.k & ((1 << int(i["src"][1:])) - 1)
                elif x >> (w - 1):
                    x -= 1 << w
                v = mk("ci", (), x) if w > 1 else (TRUE if x & 1 else FALSE)
            elif op == "trunc" and i["src"] == "i64" and i["ty"] == "i32" and a.op in ("mem", "wide"):
                v = self.part(a, 0, 4)
            elif op == "trunc" and i["src"] == "i64" and i["ty"] == "i32" and a.op == "lshr" and a.a[1].op == "ci" and a.a[1].k == 32 and a.a[0].op in ("mem", "wide"):
                v = self.part(a.a[0], 4, 4)
            elif op == "bitcast":
                v = self.bitcast(a, i["src"], i["ty"])
            elif op == "trunc" and i["ty"] == "i1" and a.op == "zext" and a.k[0] == "i1":
                v = a.a[0]
            else:
                v = mk(op, (a,), (i["src"], i["ty"]))
        elif op == "freeze":
            v = self.opnd(o[0])
        elif op == "extractvalue":
            a = self.opnd(o[0])
            v = mk("extract", (a,), tuple(i["ix"]))
            if a.op == "insert":
                x = a
                while x.op == "insert":
                    if x.k == tuple(i["ix"]):
                        v = x.a[1]
                        break
                    x = x.a[0]
        elif op == "insertvalue":
            v = mk("insert", (self.opnd(o[0]), self.opnd(o[1])), tuple(i["ix"]))
        elif op in ("call", "invoke"):
            v = self.call(i, b, cond, mem)
            if op == "invoke":
                edge[(b, i["normal"])] = cond
                edge[(b, i["unwind"])] = land(cond, mk("unwinds", (), (self.name, i["id"])))
        elif op == "landingpad":
            v = mk("lpad", (), (self.name, i["id"]))
        elif op == "fence":
            pass
        else:
            raise Unknown("instruction " + op)
        if v is not None:
            self.val[i["id"]] = v
            if v.loc is None and i["loc"]:
                v.loc = i["loc"]

    def bitcast(self, a, src, ty):
        """memory terms carry no type: reading a field as an integer and casting it back is reading the field"""
        if src == ty:
            return a
        if a.op == "ite":
            return ite(a.a[0], self.bitcast(a.a[1], src, ty), self.bitcast(a.a[2], src, ty))
        if a.op == "bitcast" and a.k == (ty, src):
            return a.a[0]
        if ty in ("double", "float") and a.op in ("mem", "arg", "cf"):
            return a
        if ty in ("double", "float") and a.op == "ci" and a.k == 0:
            return mk("cf", (), 0.0)
        if ty in ("double", "float") and a.op not in ("ci",) and not a.op.startswith(("bitcast", "zext", "trunc", "shl", "or", "and", "xor", "add")):
            return a
        return mk("bitcast", (a,), (src, ty))

    def arith(self, op, a, c, ty):
        if a.op == "ite" and c.op in ("ci",) :
            return ite(a.a[0], self.arith(op, a.a[1], c, ty), self.arith(op, a.a[2], c, ty))
        if a.op == "ci" and c.op == "ci":
            w = int(ty[1:]) if ty[0] == "i" else 64
            M = (1 << w) - 1
            x, y = a.k & M, c.k & M
            r = None
            if op == "add": r = x + y
            elif op == "sub": r = x - y
            elif op == "mul": r = x * y
            elif op == "and": r = x & y
            elif op == "or": r = x | y
            elif op == "xor": r = x ^ y
            elif op == "shl" and y < w: r = x << y
            elif op == "lshr" and y < w: r = x >> y
            if r is not None:
                r &= M
                if r >> (w - 1):
                    r -= 1 << w
                return mk("ci", (), r)
        if op in ("add", "sub", "or", "xor", "shl", "lshr") and c.op == "ci" and c.k == 0:
            return a
        if op == "add" and a.op == "ci" and a.k == 0:
            return c
        if op in ("add", "mul", "and", "or", "xor") and a.id > c.id:
            a, c = c, a
        return mk(op, (a, c), ty)

    def cmp(self, op, pred, a, c):
        if op == "icmp":
            if a.op == "ci" and c.op == "ci":
                x, y = a.k, c.k
                ux, uy = x & (2 ** 64 - 1), y & (2 ** 64 - 1)
                r = {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y,
                     "ult": ux < uy, "ule": ux <= uy, "ugt": ux > uy, "uge": ux >= uy}[pred]
                return TRUE if r else FALSE
            if pred in ("eq", "ne") and a is c:
                return TRUE if pred == "eq" else FALSE
            for x, y in ((a, c), (c, a)):
                if pred in ("eq", "ne") and x.op == "ptr" and y.op == "ci" and y.k == 0 and x.a[0].op in ("alloca", "glob"):
                    return FALSE if pred == "eq" else TRUE
            if pred == "ne":
                return lnot(self.cmp(op, "eq", a, c))
            if pred in ("eq",) and a.id > c.id:
                a, c = c, a
            neg = {"sle": "sgt", "ule": "ugt", "sge": "slt", "uge": "ult"}
            if pred in neg:
                return lnot(self.cmp(op, neg[pred], a, c))
            sw = {"sgt": "slt", "ugt": "ult"}
            if pred in sw:
                return mk("icmp", (c, a), sw[pred])
        if op == "fcmp":
            return fcmp(pred, a, c)
        return mk(op, (a, c), pred)

    PURE_INTR = re.compile(r"^llvm\.(fabs|copysign|floor|ceil|trunc|round|rint|nearbyint|sqrt|pow|powi|exp|exp2|log|log2|log10|"
                           r"sin|cos|fma|fmuladd|minnum|maxnum|minimum|maximum|is\.fpclass|umax|umin|smax|smin|abs|"
                           r"ctpop|ctlz|cttz|usub\.sat|uadd\.sat|ldexp|canonicalize|objectsize|expect)\.")

    def call(self, i, b, cond, mem):
        fn = i.get("fn")
        o = i["ops"]
        if fn and fn.startswith("llvm."):
            if fn.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.donothing")):
                return None
            if fn.startswith("llvm.threadlocal.address"):
                return self.opnd(o[0])
            if fn.startswith("llvm.memcpy") or fn.startswith("llvm.memmove"):
                n = self.opnd(o[2])
                if n.op != "ci":
                    args = [self.opnd(x) for x in o]
                    self.event(i, b, cond, mem, fn, "memcpy", args[:3])
                    return None
                self.memcpy(mem, self.opnd(o[0]), self.opnd(o[1]), n.k)
                return None
            if fn.startswith("llvm.memset"):
                n, val = self.opnd(o[2]), self.opnd(o[1])
                if n.op != "ci" or val.op != "ci" or val.k != 0:
                    self.event(i, b, cond, mem, fn, "memset", [self.opnd(x) for x in o][:3])
                    return None
                p = self.opnd(o[0])
                # zero-fill in 4-byte words; loads of wider zero fields are handled below
                for off in range(0, n.k, 8):
                    self.store(mem, self.padd(p, off), mk("cf", (), 0.0), min(8, n.k - off))
                return None
            if fn.startswith("llvm.eh.typeid"):
                return mk("typeid", tuple(self.opnd(x) for x in o))
            if self.PURE_INTR.match(fn):
                nm = fn.split(".")[1]
                if fn.startswith("llvm.is.fpclass"):
                    nm = "is_fpclass"
                if fn.startswith("llvm.expect"):
                    return self.opnd(o[0])
                return mk("call", tuple(self.opnd(x) for x in o), nm)
            if fn.startswith("llvm.frexp."):
                x = (self.opnd(o[0]),)
                return mk("insert", (mk("insert", (mk("undef"), mk("call", x, "frexp")), (0,)), mk("call", x, "frexp_e")), (1,))
            if ".with.overflow" in fn:
                return mk("call", tuple(self.opnd(x) for x in o), fn)
            if fn.startswith("llvm.trap"):
                return None
            if fn.startswith("llvm.stacksave") or fn.startswith("llvm.stackrestore"):
                return None
        args = [self.opnd(x) for x in o]
        if fn is None:
            cal = self.opnd(i["callee"])
            return self.event(i, b, cond, mem, "indirect", "indirect", [cal] + args)
        if self.pure:
            r = self.pure(self, i, fn, args, mem)
            if r is not None:
                return r
        return self.event(i, b, cond, mem, fn, i.get("dfn", fn), args)

    def event(self, i, b, cond, mem, fn, dfn, args):
        e = Event()
        e.cond, e.name, e.args, e.loc, e.idx = cond, dfn, args, i["loc"], len(self.events)
        e.block = b
        e.noret = bool(i.get("noret"))
        e.res = mk("fresh", (), (self.name, i["id"]))
        e.snap = mem.clone()
        self.events.append(e)
        if self.clobber:
            for p in self.clobber(self, fn, dfn, args) or []:
                base = p.a[0] if p.op == "ptr" else p
                for kk in [kk for kk in mem.d if kk[0] == base.id]:
                    v, s, q = mem.d[kk]
                    mem.d[kk] = (mk("mem", (q,), ("after", self.name, i["id"])), s, q)
        if i["ty"] == "void":
            return None
        return e.res
