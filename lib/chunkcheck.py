"""Chunk container: all abstract container states up to a size, reached by any sequence of its operations,
against a plain sequence.  Elements are symbols, so a state stands for all contents."""
import absint, tapesim
from absint import P, num, sym, ZERO, UNDEF, Viol, Unsupported
from tapesim import Mismatch, at, dem_ti

SZ = {"double": 8, "Elem": 8, "float": 4, "char": 1}
NAMES = {"e_mctor": "ChunkContainer(ChunkContainer&&)", "e_massign": "operator=(ChunkContainer&&)", "e_push": "push_back", "e_emplace": "emplace_back",
         "e_append": "append", "e_appendlist": "append", "e_resize": "resize", "e_resize0": "resize", "e_assign": "assign", "e_assign0": "assign",
         "e_clear": "clear", "e_reserve": "reserve", "e_extend": "uninitialized_extend", "e_count": "size", "e_empty": "empty", "e_capacity": "capacity",
         "e_at": "operator[]", "e_cat": "operator[]", "e_chunks": "chunk_begin", "e_chunk": "chunk_begin", "e_rchunk": "chunk_rbegin",
         "e_iterate": "iterator_at", "e_iteratepost": "iterator_at", "e_ctor": "ChunkContainer()", "e_dtor": "~ChunkContainer()"}


class Chunk:
    def __init__(self, sc, ch, cfg):
        self.mod = tapesim.module("chunk", sc, ch, cfg)
        self.M = absint.Machine(self.mod)
        self.sc, self.ch, self.w = sc, ch, SZ[sc]
        M = self.M
        self.failing, self.few = 0, None
        aligned = M.hooks.get("aligned_alloc") or absint.EXT["aligned_alloc"]

        def alloc(*a):
            if self.failing:
                self.failing -= 1
                if not self.failing:
                    return 0
            return aligned(M, *a)
        M.hooks["aligned_alloc"] = alloc
        M.hooks["hook_make"] = self.make
        M.hooks["hook_del"] = self.delete
        M.sp = []
        self.made = set()
        self.last = None
        self.csize = self.call("e_size")
        if self.call("e_esize") != self.w:
            raise Unsupported("element size")
        self.cell = [M.alloc(self.csize, "global", "container"), M.alloc(self.csize, "global", "other container")]
        self.val = M.alloc(8, "global", "argument")
        self.arr = M.alloc(8 * 64, "global", "argument array")
        self.out = M.alloc(8 * 64, "global", "results")
        self.base = set(r.id for r in M.leaks())

    def make(self, p, *a):
        if p in self.made:
            raise Mismatch("lifetime", "an element is constructed where one exists")
        self.made.add(p)

    def delete(self, p, *a):
        if p not in self.made:
            raise Mismatch("lifetime", "an element is destroyed that does not exist")
        self.made.discard(p)

    def call(self, name, *a):
        self.last = NAMES.get(name, self.last)
        st, v = self.M.call(name, *a)
        if st != "ok":
            raise Mismatch("throw", "throws %s" % dem_ti(v))
        return v

    def put(self, p, v):
        self.M.store(p, 8, v)

    def array(self, vals):
        for i, v in enumerate(vals):
            if self.sc == "Elem":
                self.made.add(self.arr + i * self.w)
            self.M.store(self.arr + i * self.w, self.w, v)
        return self.arr, self.arr + len(vals) * self.w

    def unarray(self, n):
        for i in range(n):
            self.made.discard(self.arr + i * self.w)

    def val_at(self, p):
        v = self.M.load(p, self.w)
        if isinstance(v, int) and self.sc != "char":
            v = absint.i2f(v, self.w)
        return v

    def same(self, a, b):
        return a is not UNDEF and b is not UNDEF and a.t == b.t

    # ---- agreement of a container with a sequence
    def check(self, c, seq, others=()):
        M = self.M
        n = len(seq)
        got = self.call("e_count", c)
        if got != n:
            raise Mismatch("size", "size is %d, it has to be %d" % (got, n))
        if bool(self.call("e_empty", c)) != (n == 0):
            raise Mismatch("empty", "empty with %d elements is %s" % (n, not n == 0))
        nch = self.call("e_chunks", c)
        cap = self.call("e_capacity", c)
        if cap < n or cap != nch * self.ch:
            raise Mismatch("capacity", "capacity is %d with %d chunks of %d and %d elements" % (cap, nch, self.ch, n))
        ps = []
        for i in range(n):
            p = self.call("e_at", c, i)
            if self.call("e_cat", c, i) != p:
                raise Mismatch("elements", "element %d is elsewhere for a constant container" % i)
            if p != self.call("e_chunk", c, i // self.ch) + (i % self.ch) * self.w:
                raise Mismatch("elements", "element %d is not at its place in the chunks" % i)
            if p in ps:
                raise Mismatch("elements", "elements %d and %d are in the same place" % (ps.index(p), i))
            v = self.val_at(p)
            if not self.same(v, seq[i]):
                raise Mismatch("elements", "element %d of %d is %r, it has to be %r" % (i, n, v, seq[i]))
            ps.append(p)
        if nch and self.call("e_rchunk", c, 0) != self.call("e_chunk", c, nch - 1):
            raise Mismatch("elements", "the last chunk is not the first one of the reverse order")
        for i in sorted({0, 1, n // 2, max(0, n - 1), n}):
            if i > n:
                continue
            k = self.call("e_iterate", c, i, n, self.out)
            if k != n - i or [M.load(self.out + 8 * j, 8) for j in range(k)] != ps[i:]:
                raise Mismatch("iterator", "iterating from %d of %d visits %d elements%s" % (i, n, k, "" if k != n - i else ", other ones"))
            ok = self.call("e_iteratepost", c, i, n - i, self.out)
            if not ok or [M.load(self.out + 8 * j, 8) for j in range(n - i)] != ps[i:]:
                raise Mismatch("iterator", "iterating from %d of %d with post-increment visits other elements" % (i, n))
        return ps

    def normal(self, c, n):
        """the next state: elements are fresh symbols, nothing is known of the free places"""
        M = self.M
        nch = self.call("e_chunks", c)
        for k in range(nch):
            p = self.call("e_chunk", c, k)
            for i in range(self.ch):
                j = k * self.ch + i
                if j < n:
                    M.store(p + i * self.w, self.w, self.sym("v%d" % j, 2.0 + j))
                else:
                    M.store(p + i * self.w, self.w, UNDEF)
        for q in (self.val, self.arr, self.out):
            r = M.regs[q >> absint.SH]
            r.cells.clear()

    def sym(self, n, w):
        return sym(n, w)

    def seq(self, n):
        return [self.sym("v%d" % j, 2.0 + j) for j in range(n)]

    # ---- operations: new sequence after op on seq
    def apply(self, c, o, op, seq):
        M = self.M
        k = op[0]
        u = self.sym("u", 1.5)
        self.put(self.val, u)
        n = len(seq)
        if k in ("push", "emplace"):
            self.call("e_" + k, c, self.val)
            return seq + [u]
        if k in ("append", "appendlist"):
            vs = [self.sym("a%d" % i, 1.1 + i) for i in range(op[1])]
            b, e = self.array(vs)
            self.call("e_" + k, c, b, e)
            self.unarray(op[1])
            return seq + vs
        if k == "resize":
            self.call("e_resize", c, op[1], self.val)
            return seq[:op[1]] + [u] * (op[1] - n)
        if k == "resize0":
            self.call("e_resize0", c, op[1])
            return seq[:op[1]] + [ZERO] * (op[1] - n)
        if k == "assign":
            self.call("e_assign", c, op[1], self.val)
            return [u] * op[1]
        if k == "assign0":
            self.call("e_assign0", c, op[1])
            return [ZERO] * op[1]
        if k == "clear":
            self.call("e_clear", c)
            return []
        if k == "reserve":
            self.call("e_reserve", c, op[1])
            if self.call("e_capacity", c) < op[1]:
                raise Mismatch("capacity", "capacity is %d after reserving %d" % (self.call("e_capacity", c), op[1]))
            return seq
        if k == "extend":
            self.call("e_extend", c, op[1])
            if self.call("e_count", c) != n + op[1]:
                raise Mismatch("size", "size is %d after extending %d by %d" % (self.call("e_count", c), n, op[1]))
            vs = [self.sym("a%d" % i, 1.1 + i) for i in range(op[1])]
            for i, v in enumerate(vs):
                self.put(self.val, v)
                p = self.call("e_at", c, n + i)
                self.call("e_make", p, self.val)
            return seq + vs
        if k == "move":
            # construct another one from it; it is empty and can be assigned to
            self.call("e_mctor", o, c)
            self.check(o, seq)
            if self.call("e_count", c) != 0 or not self.call("e_empty", c):
                raise Mismatch("moved", "the container moved from has %d elements" % self.call("e_count", c))
            if op[1] == "back":
                self.call("e_massign", c, o)
                self.call("e_dtor", o)
            elif op[1] == "destroy":
                self.call("e_dtor", c)
                self.check(o, seq)
                self.call("e_mctor", c, o)
                self.call("e_dtor", o)
            elif op[1] == "reuse":
                self.call("e_resize", c, 2, self.val)
                self.check(c, [u, u])
                self.call("e_clear", c)
                self.check(o, seq)
                self.call("e_massign", c, o)
                self.call("e_dtor", o)
            return seq
        if k == "from":
            # assigned another one, of n elements
            self.call("e_ctor", o)
            vs = []
            for i in range(op[1]):
                v = self.sym("a%d" % i, 1.1 + i)
                self.put(self.val, v)
                self.call("e_emplace", o, self.val)
                vs.append(v)
            self.call("e_massign", c, o)
            if self.call("e_count", o) != 0 or not self.call("e_empty", o):
                raise Mismatch("moved", "the container assigned from has %d elements" % self.call("e_count", o))
            self.call("e_dtor", o)
            return vs
        if k == "self":
            self.call("e_massign", c, c)
            return seq
        raise KeyError(k)

    def ops(self, n, top):
        ch = self.ch
        if self.few:
            yield ("push",)
            yield ("append", 1)
            for k in self.few:
                yield ("resize", k)
                yield ("reserve", k)
            if n + 1 <= top:
                yield ("extend", 1)
            yield ("move", "destroy")
            yield ("from", self.few[-1])
            return
        yield ("push",)
        yield ("emplace",)
        for k in range(0, ch + 1):
            yield ("append", k)
            if k in (0, 1, ch):
                yield ("appendlist", k)
        for k in range(0, top + 1):
            yield ("resize", k)
            yield ("assign", k)
            if k in (0, 1, ch, ch + 1, n + 1):
                yield ("resize0", k)
                yield ("assign0", k)
            if n + k <= top:
                yield ("extend", k)
            yield ("reserve", k)
        yield ("clear",)
        for k in ("back", "destroy", "reuse"):
            yield ("move", k)
        for k in (0, 1, ch, ch + 1, 2 * ch):
            yield ("from", k)
        yield ("self",)
        if self.few is None:
            yield ("fail", "push")
            yield ("fail", "emplace")
            yield ("fail", "append", ch)
            for k in (ch + 1, 2 * ch, 2 * ch + 1, 3 * ch):
                yield ("fail", "resize", k)
                yield ("fail", "reserve", k)
                yield ("fail", "assign", k)
                yield ("fail", "extend", k)
                yield ("fail2", "resize", k)
                yield ("fail2", "reserve", k)

    def exhausted(self, c, op, seq):
        """an allocation fails: bad_alloc, nothing lost"""
        M = self.M
        u = self.sym("u", 1.5)
        self.put(self.val, u)
        a = [c] + list(op[2:])
        if op[1] == "append":
            a = [c] + list(self.array([self.sym("a%d" % i, 1.1 + i) for i in range(op[2])]))
        elif op[1] not in ("extend", "reserve"):
            a.append(self.val)
        self.failing = 2 if op[0] == "fail2" else 1
        n = len(seq)
        self.last = NAMES["e_" + op[1]]
        try:
            st, v = M.call("e_" + op[1], *a)
        finally:
            failed, self.failing = not self.failing, 0
            if op[1] == "append":
                self.unarray(op[2])
        if not failed:
            return None
        if st == "ok":
            raise Mismatch("exhausted", "a failing allocation is not reported")
        if "bad_alloc" not in v:
            raise Mismatch("exhausted", "throws %s when an allocation fails" % dem_ti(v))
        if op[1] == "append":
            k = self.call("e_count", c)
            if not n <= k <= n + op[2]:
                raise Mismatch("exhausted", "size is %d after a failing append to %d elements" % (k, n))
            return seq + [self.sym("a%d" % i, 1.1 + i) for i in range(k - n)]
        if op[1] == "assign":
            return [u] * n
        return seq

    def canon(self):
        return absint.canonical(self.M, [self.cell[0]])

    def start(self, c):
        self.call("e_ctor", c)
        self.check(c, [])
        for i in range(0, 4 * self.ch + 2):
            for f, want in (("e_numchunks", -(-i // self.ch)), ("e_high", i // self.ch), ("e_low", i % self.ch), ("e_num", i * self.ch)):
                if self.call(f, i) != want:
                    raise Mismatch("chunks", "%s(%d) is %d, it has to be %d" % (f, i, self.call(f, i), want))

    def explore(self, top, part=(0, 1), limit=100000):
        M = self.M
        c, o = self.cell
        fresh = (M.snapshot(), frozenset())
        viol = []
        st = {"states": 0, "transitions": 0, "complete": True}
        try:
            self.start(c)
        except Mismatch as e:
            return [((), e.rule, at(getattr(e, "where", None)), e.msg, self.last)], st
        except Viol as e:
            return [((), e.kind, at(getattr(e, "where", None)), e.msg, self.last)], st
        self.normal(c, 0)
        work = [(M.snapshot(), frozenset(self.made), 0, ())]
        seen = {self.canon()}
        while work:
            snap, made, n, hist = work.pop(0)
            for op in self.ops(n, top):
                M.restore(snap)
                M.sp = []
                self.made = set(made)
                h = hist + (op,)
                st["transitions"] += 1
                try:
                    seq = self.apply(c, o, op, self.seq(n)) if op[0][:4] != "fail" else self.exhausted(c, op, self.seq(n))
                    if seq is None:
                        continue
                    ps = self.check(c, seq)
                    if self.sc == "Elem":
                        extra = self.made - set(ps)
                        if extra or set(ps) - self.made:
                            raise Mismatch("lifetime", "%d element(s) exist that the container does not have" % len(extra) if extra else
                                           "%d element(s) of the container have not been constructed" % len(set(ps) - self.made))
                    snap2 = M.snapshot()
                    made2 = frozenset(self.made)
                    self.call("e_dtor", c)
                    if self.made:
                        raise Mismatch("lifetime", "%d element(s) are not destroyed with the container" % len(self.made))
                    left = [r for r in M.leaks() if r.id not in self.base]
                    if left:
                        raise Mismatch("leak", "%d allocation(s) are never released" % len(left))
                    M.restore(snap2)
                    self.made = set(made2)
                    if len(seq) > top:
                        continue
                    self.normal(c, len(seq))
                except Mismatch as e:
                    viol.append((h, e.rule, at(getattr(e, "where", None)), e.msg, self.last))
                    continue
                except Viol as e:
                    viol.append((h, e.kind, at(getattr(e, "where", None)), e.msg, self.last))
                    continue
                key = self.canon()
                if key in seen:
                    continue
                if len(seen) >= limit:
                    st["complete"] = False
                    continue
                seen.add(key)
                work.append((M.snapshot(), frozenset(self.made), len(seq), h))
            if len(viol) > 5:
                break
        st["states"] = len(seen)
        return viol, st
