"""Abstract interpreter over the LLVM IR of the harness units."""
import time
import ir
from lin import Lin, ZERO, ONE, const, sym, witness
from domain import *
from domain import content_at
from lin import entails
import facts as factmod

K_EXACT = 2          # loop iterations kept apart before states are joined
MAX_STEPS = 400000
MAX_STATES_PER_KEYSET = 400


def apply_tok(f, args):
    """value of an opaque function; element-wise results and folds are again indexed families"""
    if f == "inc":
        a = args[0]
        if a[0] == "V" and a[1].startswith("inc("):
            return ("V", a[1], a[2] + 1)
        if a[0] == "t":
            return ("V", "inc(%s)" % a[1], ONE)
        return ("f", f) + args
    if f == "plus":
        a, b = args
        if b[0] == "V":
            if a[0] == "t" and b[2] == ZERO:
                return ("V", "acc(%s,%s)" % (a[1], b[1]), ONE)
            if a[0] == "V" and a[1].startswith("acc(") and a[1].endswith(",%s)" % b[1]) and a[2] == b[2]:
                return ("V", a[1], a[2] + 1)
        return ("f", f) + args
    if all(a[0] == "V" for a in args) and all(a[2] == args[0][2] for a in args):
        return ("V", "%s(%s)" % (f, ",".join(a[1] for a in args)), args[0][2])
    return ("f", f) + args


class Report:
    def __init__(self, rule, msg, loc, exact, trace, entry, label):
        self.rule, self.msg, self.loc, self.exact, self.trace = rule, msg, loc, exact, trace
        self.entry, self.label = entry, label

    def where(self):
        for f, l, fn in self.loc:
            if f and "/ttl/" in f:
                return "%s:%d (%s)" % (f.split("/repo/")[-1], l, fn)
        if self.loc:
            f, l, fn = self.loc[0]
            return "%s:%d" % (f, l) if f else fn
        return "?"

    def chain(self):
        return " <- ".join("%s:%d %s" % ((f or "?").split("/repo/")[-1], l, fn) for f, l, fn in self.loc)

    def key(self):
        return (self.entry, self.rule, self.msg, self.where())


class Engine:
    def __init__(self, mod, sem, nodelay=None, esz=16, alloc=None, opaque=None, geprange=False, sums=False, semsize=None):
        self.sums = sums
        self.semsize = semsize or {}    # mangled name -> size of the object it works on (default: esz)
        self.cursz = esz
        self.geprange = geprange        # report iterators that leave the range they were made for
        self.m = mod
        self.sem = sem                  # mangled name -> semantic
        self.nodelay = nodelay or {}    # allocation size -> Layout
        self.alloc = alloc              # function(engine, st, site, size Lin, kind) -> list[(st, value)] or None
        self.esz = esz
        self.reports = []
        self.undecided = []
        self.steps = 0
        self.finals = 0
        self.joins = 0
        self.entry = self.label = None
        self.curloc = None
        self.instrs = set()
        self.deep = set()      # functions active four times at once on some path
        self.deadline = None
        self.kexact = K_EXACT       # loop iterations kept apart
        self.deadline = float("inf")
        self.meter = False          # True: count loop iterations and comparisons of every path
        self.cutlog = {}            # where a feasible path ran a loop more than kexact times (meter)
        self.cut = False            # True: paths beyond kexact iterations are dropped and counted, not widened
        self.cuts = 0
        self.order = ()             # predicates that are strict weak orders in this case

    # ------------------------------------------------------------ reporting
    def report(self, st, rule, msg, dbg="cur"):
        loc = self.m.loc(self.curloc) if dbg == "cur" else (self.m.loc(dbg) if dbg else [])
        self.reports.append(Report(rule, msg, loc, st.exact and self.real(st), st.trace, self.entry, self.label))

    def real(self, st):
        """the path condition has an integer solution (feasibility along the way is decided over the rationals)"""
        return witness(st.cons)

    # ------------------------------------------------------------ splitting helpers
    def split_eq(self, st, l):
        """[(state, l==0?)]"""
        if not l.t:
            return [(st, l.c == 0)]
        out = []
        a = st.copy()
        if a.assume_eq(l):
            out.append((a, True))
        b = st.copy()
        if b.assume_ge(l - 1):
            out.append((b, False))
        c = st.copy()
        if c.assume_ge(-l - 1):
            out.append((c, False))
        return out

    def split_ge(self, st, l):
        if not l.t:
            return [(st, l.c >= 0)]
        if st.entails(l):
            return [(st, True)]
        if st.entails(-l - 1):
            return [(st, False)]
        out = []
        a = st.copy()
        if a.assume_ge(l):
            out.append((a, True))
        b = st.copy()
        if b.assume_ge(-l - 1):
            out.append((b, False))
        return out

    def ptr_eq(self, st, a, b):
        if a[0] != "p" or b[0] != "p":
            raise Undecided("pointer comparison of non-pointers")
        if a[1] is None or b[1] is None:
            if a[1] is None and b[1] is None:
                return self.split_eq(st, a[2] - b[2])
            return [(st, False)]
        if a[1][0] != b[1][0] or a[1][1] != b[1][1]:
            return [(st, False)]
        if a[1][0] == "n":
            d = a[2] - b[2]
            if not d.is_const():
                raise Undecided("node offset")
            if d.c != 0:
                return [(st, False)]
            return self.split_eq(st, a[1][2] - b[1][2])
        return self.split_eq(st, a[2] - b[2])

    # ------------------------------------------------------------ node memory
    def locate(self, st, F, idx):
        """[(st, chunk)] for the chunk of family F holding idx; reports wild accesses"""
        cands = [c for c in st.chunks if c.F == F]
        for c in cands:
            if isinstance(c, Cell):
                if c.lo == idx:
                    return [(st, c)]
            elif st.entails(idx - c.lo) and st.entails(c.hi - 1 - idx):
                return [(st, c)]
        out = []
        # sequential splitting; the index is tracked through a spec slot so that substitutions apply to it
        s0 = st.copy()
        s0.spec["~i"] = idx
        work = [(s0, 0)]
        while work:
            s, k = work.pop()
            cs = [x for x in s.chunks if x.F == F]
            i = s.spec["~i"]
            if k >= len(cs):
                del s.spec["~i"]
                self.report(s, "wild-access", "node %s[%s] does not exist" % (F, i))
                continue
            c = cs[k]
            lo, hi = c.lo, s.hi(c)
            for (s1, r1) in self.split_ge(s, i - lo):
                if not r1:
                    work.append((s1, k + 1))
                    continue
                s1b = s1
                c1 = [x for x in s1b.chunks if x.F == F][k]
                i1 = s1b.spec["~i"]
                for (s2, r2) in self.split_ge(s1b, s1b.hi(c1) - 1 - i1):
                    if r2:
                        s2 = s2 if s2 is not st else s2.copy()
                        c2 = [x for x in s2.chunks if x.F == F][k]
                        s2 = s2.copy()
                        s2.spec.pop("~i", None)
                        out.append((s2, c2))
                    else:
                        work.append((s2, k + 1))
        return out

    def with_idx(self, st, ptr):
        return ptr

    def read_node(self, st, p):
        """[(st, value)] value of the field at node pointer p"""
        F, idx = p[1][1], p[1][2]
        if not p[2].is_const():
            raise Undecided("symbolic offset into a node")
        off = p[2].c
        out = []
        st0 = st.copy()
        st0.spec["~p"] = idx
        for s, c in self.locate(st0, F, idx):
            i = s.spec.pop("~p")
            if isinstance(c, Free):
                self.report(s, "use-after-free", "reads a node that was already released")
                continue
            if isinstance(c, Cell):
                v = dict(c.fields).get(off, UNDEF)
                out.append((s, v))
                continue
            if not isinstance(c, Seg):
                out += self.read_other(s, c, i, off)
                continue
            L = s.lay[F]
            if off == L.nxt or off == L.prv:
                fwd = (off == L.nxt) == (c.d == 1)     # moving to idx+1?
                end = c.lnext if off == L.nxt else c.fprev
                s.spec["~i"] = i
                s.spec["~e"] = end
                edge = (c.hi - 1 - i) if fwd else (i - c.lo)
                for s2, last in self.split_eq0(s, edge):
                    i2 = s2.spec.pop("~i")
                    e2 = s2.spec.pop("~e")
                    if last:
                        out.append((s2, e2))
                    else:
                        out.append((s2, node(F, i2 + 1 if fwd else i2 - 1)))
                continue
            ct = dict(c.cont).get(off)
            if ct is None:
                out.append((s, UNDEF))
            else:
                v = content_at(ct, i)
                out.append((s, v))
        return out

    def read_other(self, s, c, i, off):
        raise Undecided("unknown chunk")

    def split_eq0(self, st, l):
        """l >= 0 known; split l==0 / l>=1"""
        if not l.t:
            return [(st, l.c == 0)]
        out = []
        a = st.copy()
        if a.assume_eq(l):
            out.append((a, True))
        b = st.copy()
        if b.assume_ge(l - 1):
            out.append((b, False))
        return out

    def materialise(self, st, F, idx, what="writes"):
        """[(st, cell)] make F[idx] an explicit cell"""
        out = []
        st0 = st.copy()
        st0.spec["~p"] = idx
        for s, c in self.locate(st0, F, idx):
            i = s.spec["~p"]
            if isinstance(c, Free):
                s.spec.pop("~p")
                self.report(s, "use-after-free", "%s a node that was already released" % what)
                continue
            if isinstance(c, Cell):
                s = s.copy()
                s.spec.pop("~p")
                out.append((s, c))
                continue
            if not isinstance(c, Seg):
                for x in self.materialise_other(s, c, i):
                    out.append(x)
                continue
            s = s.copy()
            s.spec["~s"] = tuple(c)
            for s1, atlo in self.split_eq0(s, i - c.lo):
                for s2, athi in self.split_eq0(s1, s1.spec["~s"][2] - 1 - s1.spec["~p"]):
                    s2 = s2.copy()
                    i = s2.spec.pop("~p")
                    c2 = Seg._make(s2.spec.pop("~s"))
                    new, cell = self.split_seg(s2, c2, i, atlo, athi)
                    s2.replace_chunk(c2, new)
                    out.append((s2, cell))
        return out

    def materialise_other(self, s, c, i):
        raise Undecided("unknown chunk")

    def split_seg(self, s, c, i, atlo, athi):
        L = s.lay[c.F]
        below = None if atlo else node(c.F, i - 1)
        above = None if athi else node(c.F, i + 1)
        if c.d == 1:
            prv = c.fprev if atlo else below
            nxt = c.lnext if athi else above
        else:
            prv = c.fprev if athi else above
            nxt = c.lnext if atlo else below
        f = {}
        if L.nxt is not None:
            f[L.nxt] = nxt
        if L.prv is not None:
            f[L.prv] = prv
        for off, ct in c.cont:
            v = content_at(ct, i)
            if v != RAW:
                f[off] = v
        cell = Cell(c.F, i, tuple(sorted(f.items())))
        me = node(c.F, i) if L.nxt is not None else None
        new = []
        if not atlo:
            if c.d == 1:
                new.append(Seg(c.F, c.lo, i, 1, c.fprev, me, c.cont))
            else:
                new.append(Seg(c.F, c.lo, i, -1, me, c.lnext, c.cont))
        new.append(cell)
        if not athi:
            if c.d == 1:
                new.append(Seg(c.F, i + 1, c.hi, 1, me, c.lnext, c.cont))
            else:
                new.append(Seg(c.F, i + 1, c.hi, -1, c.fprev, me, c.cont))
        return new, cell

    def write_cell(self, st, cell, off, v):
        f = dict(cell.fields)
        if v is None:
            f.pop(off, None)
        else:
            f[off] = v
        n = Cell(cell.F, cell.lo, tuple(sorted(f.items(), key=lambda x: x[0])))
        st.replace_chunk(cell, [n])
        return n

    def write_node(self, st, p, v):
        F, idx = p[1][1], p[1][2]
        if not p[2].is_const():
            raise Undecided("symbolic offset into a node")
        off = p[2].c
        st0 = st.copy()
        st0.spec["~v"] = v if v is not None else ()
        out = []
        for s, cell in self.materialise(st0, F, idx):
            v2 = s.spec.pop("~v")
            lay = s.lay[F]
            if off >= lay.size or off < 0:
                self.report(s, "out-of-bounds", "writes past the end of a node")
                continue
            self.write_cell(s, cell, off, v2 if v is not None else None)
            out.append(s)
        return out

    # ------------------------------------------------------------ arrays
    def arr_at(self, st, A, off):
        a = st.arrs[A]
        r = off.c % a.esz
        q = (off - r).divexact(a.esz)
        if q is None:
            raise Undecided("misaligned array access")
        return q, r

    def arr_locate(self, st, A, idx, verb):
        """[(st, chunk position, idx)]"""
        a = st.arrs[A]
        if not a.alive:
            self.report(st, "use-after-free", "%s storage that was already released" % verb)
            return []
        for k, (lo, hi, ct) in enumerate(a.chunks):
            if st.entails(idx - lo) and st.entails(hi - 1 - idx):
                return [(st, k, idx)]
        out = []
        s0 = st.copy()
        s0.spec["~a"] = idx
        bad = []
        work = []
        for s, ok in self.split_ge(s0, idx):
            if not ok:
                bad.append((s, "before the beginning"))
            else:
                for s2, ok2 in self.split_ge(s, s.arrs[A].n - 1 - s.spec["~a"]):
                    if ok2:
                        work.append((s2, 0))
                    else:
                        bad.append((s2, "past the end"))
        for s, w in bad:
            s.spec.pop("~a")
            self.report(s, "out-of-bounds", "%s storage %s of the block" % (verb, w))
        while work:
            s, k = work.pop()
            ch = s.arrs[A].chunks
            if k >= len(ch):
                continue
            lo, hi, ct = ch[k]
            for s2, ok in self.split_ge(s, hi - 1 - s.spec["~a"]):
                if ok:
                    s2 = s2.copy()
                    i = s2.spec.pop("~a")
                    out.append((s2, k, i))
                else:
                    work.append((s2, k + 1))
        return out

    def arr_set(self, st, A, k, idx, ct):
        a = st.arrs[A]
        lo, hi, old = a.chunks[k]
        new = []
        if not (lo == idx):
            new.append((lo, idx, old))
        new.append((idx, idx + 1, ct))
        if not (hi == idx + 1):
            new.append((idx + 1, hi, old))
        st = st.copy()
        st.arrs[A] = st.fold_arr(a._replace(chunks=a.chunks[:k] + tuple(new) + a.chunks[k + 1:]))
        return st

    def arr_of(self, st, p):
        """(array name, byte offset in it) if p points into an array (heap block or inline storage), else None"""
        b = p[1]
        if b[0] == "a":
            return b[1], p[2]
        if b[0] == "o":
            o = st.objs[b[1]]
            if o.inline:
                A, start, n, esz = o.inline
                d = p[2] - start
                if d.is_const() and not (0 <= d.c < n * esz):
                    return None
                return A, d
        return None

    # ------------------------------------------------------------ element operations
    def e_read(self, st, p, verb="reads"):
        """[(st, token)] token of the live element at p; reports raw/freed accesses"""
        if p[0] != "p":
            self.report(st, "uninitialised", "%s an element through an uninitialised pointer" % verb)
            return []
        if p[1] is None:
            self.report(st, "null-deref", "%s an element through a null pointer" % verb)
            return []
        if p[1][0] == "n":
            out = []
            L = st.lay[p[1][1]]
            if p[2].is_const() and p[2].c not in L.payload:
                self.report(st, "type-confusion", "%s a node at offset %s as an element" % (verb, p[2]))
                return []
            for s, v in self.read_node(st, p):
                if v[0] == "E":
                    out.append((s, v[1]))
                else:
                    self.report(s, "dead-element", "%s an element that is not alive" % verb)
            return out
        ar = self.arr_of(st, p)
        if ar:
            A, off = ar
            q, r = self.arr_at(st, A, off)
            if r:
                raise Undecided("misaligned element access")
            out = []
            for s, k, i in self.arr_locate(st, A, q, verb):
                v = content_at(s.arrs[A].chunks[k][2], i)
                if v[0] == "E":
                    out.append((s, v[1]))
                else:
                    self.report(s, "dead-element", "%s an element that is not alive" % verb)
            return out
        if p[1][0] == "o":
            o = st.objs[p[1][1]]
            if not o.alive:
                self.report(st, "use-after-free", "%s an element of a dead object" % verb)
                return []
            if not p[2].is_const():
                raise Undecided("symbolic offset into an object")
            v = dict(o.fields).get(p[2].c)
            if v is not None and v[0] == "E":
                return [(st, v[1])]
            if o.kind == "sentinel" or (v is not None and v[0] != "E") or o.kind == "param":
                self.report(st, "type-confusion", "%s container header memory as an element" % verb)
            else:
                self.report(st, "dead-element", "%s an element that is not alive" % verb)
            return []
        raise Undecided("element access through %r" % (p,))

    def e_write(self, st, p, tok, verb, need_raw):
        """make the element at p hold tok (None: becomes raw). need_raw: storage must be raw before"""
        if p[0] != "p":
            self.report(st, "uninitialised", "%s through an uninitialised pointer" % verb)
            return []
        if p[1] is None:
            self.report(st, "null-deref", "%s through a null pointer" % verb)
            return []
        val = None if tok is None else ("E", tok)
        out = []
        if p[1][0] == "n":
            L = st.lay[p[1][1]]
            if p[2].is_const() and p[2].c not in L.payload:
                self.report(st, "type-confusion", "%s inside a node at offset %s" % (verb, p[2]))
                return []
            st0 = st.copy()
            st0.spec["~t"] = tok if tok is not None else ()
            for s, cell in self.materialise(st0, p[1][1], p[1][2], verb):
                t = s.spec.pop("~t")
                old = dict(cell.fields).get(p[2].c)
                if need_raw and old is not None and old[0] == "E":
                    self.report(s, "double-construct", "%s over an element that is still alive" % verb)
                    continue
                if not need_raw and (old is None or old[0] != "E"):
                    self.report(s, "dead-element", "%s an element that is not alive" % verb)
                    continue
                self.write_cell(s, cell, p[2].c, None if tok is None else ("E", t))
                out.append(s)
            return out
        ar = self.arr_of(st, p)
        if ar:
            A, off = ar
            q, r = self.arr_at(st, A, off)
            if r:
                raise Undecided("misaligned element access")
            st0 = st.copy()
            st0.spec["~t"] = tok if tok is not None else ()
            for s, k, i in self.arr_locate(st0, A, q, verb):
                s = s.copy()
                t = s.spec.pop("~t")
                v = content_at(s.arrs[A].chunks[k][2], i)
                if need_raw and v[0] == "E":
                    self.report(s, "double-construct", "%s over an element that is still alive" % verb)
                    continue
                if not need_raw and v[0] != "E":
                    self.report(s, "dead-element", "%s an element that is not alive" % verb)
                    continue
                ct = RAW if tok is None else content_of(("E", t), i)
                out.append(self.arr_set(s, A, k, i, ct))
            return out
        if p[1][0] == "o":
            o = st.objs[p[1][1]]
            if not o.alive:
                self.report(st, "use-after-free", "%s in a dead object" % verb)
                return []
            if not p[2].is_const():
                raise Undecided("symbolic offset into an object")
            f = dict(o.fields)
            old = f.get(p[2].c)
            if old is not None and old[0] != "E" or o.kind in ("param", "sentinel"):
                self.report(st, "type-confusion", "%s over container header memory" % verb)
                return []
            if need_raw and old is not None:
                self.report(st, "double-construct", "%s over an element that is still alive" % verb)
                return []
            if not need_raw and old is None:
                self.report(st, "dead-element", "%s an element that is not alive" % verb)
                return []
            if p[2].c < 0 or p[2].c + self.cursz > o.size:
                self.report(st, "out-of-bounds", "%s outside an object" % verb)
                return []
            s = st.copy()
            if val is None:
                f.pop(p[2].c, None)
            else:
                f[p[2].c] = val
            s.objs[p[1][1]] = o._replace(fields=tuple(sorted(f.items(), key=lambda x: x[0])))
            return [s]
        raise Undecided("element write through %r" % (p,))

    # ------------------------------------------------------------ scalar memory
    def load(self, st, p, size):
        if p[0] != "p":
            self.report(st, "uninitialised", "loads through an uninitialised pointer")
            return []
        b = p[1]
        if b is None:
            self.report(st, "null-deref", "loads through a null pointer")
            return []
        if b[0] == "n":
            L = st.lay[b[1]]
            if p[2].is_const() and not (0 <= p[2].c < L.size):
                self.report(st, "out-of-bounds", "loads past the end of a node")
                return []
            return self.read_node(st, p)
        ar = self.arr_of(st, p)
        if ar:
            A, off = ar
            q, r = self.arr_at(st, A, off)
            if r or st.arrs[A].kind == "E":
                raise Undecided("scalar load from element storage")
            out = []
            for s, k, i in self.arr_locate(st, A, q, "reads"):
                v = content_at(s.arrs[A].chunks[k][2], i)
                if v == RAW:
                    v = UNDEF
                out.append((s, v))
            return out
        if b[0] == "o":
            o = st.objs[b[1]]
            if not o.alive:
                self.report(st, "use-after-free", "loads from a dead object")
                return []
            if not p[2].is_const():
                raise Undecided("symbolic offset into an object")
            off = p[2].c
            if off < 0 or off + size > o.size:
                self.report(st, "out-of-bounds", "loads outside an object")
                return []
            v = dict(o.fields).get(off, UNDEF)
            if v[0] == "E" if isinstance(v, tuple) else False:
                raise Undecided("scalar load of element")
            return [(st, v)]
        if b[0] == "g":
            return [(st, self.global_load(b[1], p[2].c, size))]
        raise Undecided("load through %r" % (p,))

    def store(self, st, p, v, size):
        if p[0] != "p":
            self.report(st, "uninitialised", "stores through an uninitialised pointer")
            return []
        b = p[1]
        if b is None:
            self.report(st, "null-deref", "stores through a null pointer")
            return []
        if b[0] == "n":
            L = st.lay[b[1]]
            if p[2].is_const() and p[2].c in L.payload:
                self.report(st, "type-confusion", "overwrites an element with a scalar")
                return []
            return self.write_node(st, p, v)
        ar = self.arr_of(st, p)
        if ar:
            A, off = ar
            q, r = self.arr_at(st, A, off)
            if r or st.arrs[A].kind == "E":
                self.report(st, "type-confusion", "scalar store into element storage")
                return []
            out = []
            st0 = st.copy()
            st0.spec["~v"] = v
            for s, k, i in self.arr_locate(st0, A, q, "writes"):
                s = s.copy()
                v2 = s.spec.pop("~v")
                out.append(self.arr_set(s, A, k, i, content_of(v2, i)))
            return out
        if b[0] == "o":
            o = st.objs[b[1]]
            if not o.alive:
                self.report(st, "use-after-free", "stores into a dead object")
                return []
            if not p[2].is_const():
                raise Undecided("symbolic offset into an object")
            off = p[2].c
            if off < 0 or off + size > o.size:
                self.report(st, "out-of-bounds", "stores outside an object")
                return []
            if o.kind == "const":
                self.report(st, "const-write", "stores into a read-only argument")
                return []
            s = st.copy()
            f = dict(o.fields)
            if off in f and f[off][0] == "E" if off in f and isinstance(f[off], tuple) and not isinstance(f[off], Lin) else False:
                self.report(st, "type-confusion", "overwrites an element with a scalar")
                return []
            f[off] = v
            s.objs[b[1]] = o._replace(fields=tuple(sorted(f.items(), key=lambda x: x[0])))
            return [s]
        raise Undecided("store through %r" % (p,))

    def global_load(self, g, off, size):
        t, v, c = self.m.globals[g]
        if v is None:
            raise Undecided("load of external global " + g)
        return self.const_at(t, v, off)

    def const_at(self, t, v, off):
        t = self.m.types.resolve(t)
        if v[0] == "zero":
            v = ("int", 0) if t[0] != "ptr" else ("null",)
            if t[0] in ("arr", "struct"):
                return ZERO
        if t[0] in ("arr", "struct"):
            n = t[1] if t[0] == "arr" else len(t[1])
            if v[0] == "agg":
                for i in range(n):
                    o, ft = self.m.types.field(t, i)
                    if o <= off < o + self.m.types.size(ft):
                        return self.const_at(ft, v[1][i][1], off - o)
            raise Undecided("constant")
        return self.val(None, t, v)

    # ------------------------------------------------------------ allocation
    def do_new(self, st, site, size, kind):
        st = st.copy()
        st.eff = st.eff | {"new"}
        if self.alloc:
            r = self.alloc(self, st, site, size, kind)
            if r is not None:
                return r
        if size.is_const() and size.c in self.nodelay:
            L = self.nodelay[size.c]
            F = "N" + site
            st.lay[F] = L
            i = st.cnt.get(F, ZERO)
            st.cnt[F] = i + 1
            st.chunks = st.chunks + (Cell(F, i, ()),)
            return [(st, node(F, i))]
        n = size.divexact(self.esz)
        if n is None:
            if size.is_const():
                # node of unexpected size
                self.report(st, "alloc-size", "allocates %s bytes, which fits no node or element array" % size)
                return []
            raise Undecided("allocation size %s" % size)
        A = "A" + site
        k = 0
        while A in st.arrs:
            k += 1
            A = "A%s~%d" % (site, k)
        st.arrs[A] = Arr(self.esz, n, True, "E", ((ZERO, n, RAW),))
        st.spec["newkind " + A] = kind
        return [(st, aptr(A, ZERO))]

    def do_delete(self, st, p, kind):
        if p[0] != "p":
            self.report(st, "uninitialised", "releases an uninitialised pointer")
            return []
        if p[1] is None:
            return [st]
        st = st.copy()
        st.eff = st.eff | {"delete"}
        b = p[1]
        if b[0] == "n":
            if not (p[2].is_const() and p[2].c == 0):
                self.report(st, "bad-free", "releases a pointer into the middle of a node")
                return []
            out = []
            for s, cell in self.materialise(st, b[1], b[2], "releases"):
                live = [o for o, v in cell.fields if isinstance(v, tuple) and v[0] == "E"]
                if live:
                    self.report(s, "leaked-element", "releases a node whose element was not destroyed")
                    continue
                s.replace_chunk(cell, [Free(cell.F, cell.lo, cell.lo + 1)])
                out.append(s)
            return out
        if b[0] == "a":
            A = b[1]
            a = st.arrs[A]
            if not a.alive:
                self.report(st, "double-free", "releases storage twice")
                return []
            if not (p[2].is_const() and p[2].c == 0):
                r = self.split_eq(st, p[2])
                out = []
                for s, e in r:
                    if e:
                        out += self.do_delete(s, ("p", b, ZERO), kind)
                    else:
                        self.report(s, "bad-free", "releases a pointer into the middle of a block")
                return out
            nk = st.spec.get("newkind " + A)
            if nk and nk != kind:
                self.report(st, "bad-free", "releases storage of operator %s with operator %s" % (nk, kind))
                return []
            work = [st]
            for k in range(len(a.chunks)):
                nxt = []
                for s in work:
                    lo, hi, ct = s.arrs[A].chunks[k]
                    if ct == RAW or s.arrs[A].kind != "E":
                        nxt.append(s)
                        continue
                    for s2, empty in self.split_ge(s, lo - hi):
                        if empty:
                            nxt.append(s2)
                        else:
                            self.report(s2, "leaked-element", "releases storage that still holds live elements")
                work = nxt
            out = []
            for s in work:
                s = s.copy()
                s.arrs[A] = s.arrs[A]._replace(alive=False, chunks=((ZERO, s.arrs[A].n, RAW),))
                out.append(s)
            return out
        self.report(st, "bad-free", "releases memory that was not allocated")
        return []

    # ------------------------------------------------------------ values
    def val(self, st, ty, v):
        k = v[0]
        if k == "var":
            r = st.env.get(v[1])
            if r is None:
                raise Undecided("undefined SSA name " + v[1])
            return r
        if k == "int":
            if ty[0] == "i" and ty[1] == 1:
                return ("b", v[1] & 1)
            return const(v[1])
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "glob":
            if v[1] in self.m.funcs or v[1] in self.m.decls:
                return ("p", ("f", v[1]), ZERO)
            return ("p", ("g", v[1]), ZERO)
        if k == "zero":
            t = self.m.types.resolve(ty)
            if t[0] == "ptr":
                return NULL
            if t[0] == "i":
                return const(0) if t[1] != 1 else FALSE
            if t[0] == "struct":
                return ("agg", tuple(self.val(st, f, ("zero", f)) for f in t[1]))
            if t[0] == "arr":
                return ("agg", tuple(self.val(st, t[2], ("zero", t[2])) for _ in range(t[1])))
        if k == "agg":
            return ("agg", tuple(self.val(st, t, x) for t, x in v[1]))
        if k == "cast":
            return self.val(st, v[2], v[3])
        if k == "gep":
            b = self.val(st, ("ptr",), v[2])
            t = v[1]
            off = 0
            idx = [x[1] for x in v[3]]
            off += idx[0] * self.m.types.size(t)
            for i in idx[1:]:
                o, t = self.m.types.field(t, i)
                off += o
            return ("p", b[1], b[2] + off)
        if k == "binop":
            a = self.val(st, v[2], v[3])
            b = self.val(st, v[2], v[4])
            if isinstance(a, Lin) and isinstance(b, Lin) and v[1] in ("add", "sub"):
                return a + b if v[1] == "add" else a - b
        raise Undecided("constant %r" % (v,))

    # ------------------------------------------------------------ driver
    def run(self, fname, st, args, post, label=""):
        """interpret fname from state st; post(engine, st, ret) -> list of violation strings at each exit"""
        self.entry, self.label = fname, label
        f = self.m.funcs.get(fname)
        if f is None:
            raise KeyError("entry %s is not in the analysed unit" % fname)
        ir.analyse_cfg(f)
        st = st.copy()
        st.log = None
        st.fn, st.blk, st.ip = fname, f.order[0], 0
        st.env = dict(zip(f.params, args))
        self.tables = {}
        self.count = {}
        work = [st]
        if f.order[0] in f.heads:
            raise Undecided("entry block is a loop header")
        steps0 = self.steps
        while work:
            if time.time() > self.deadline:
                self.undecided.append((fname, label, "time limit of the case"))
                return
            if self.steps - steps0 > getattr(self, "max_steps", MAX_STEPS):
                self.undecided.append((fname, label, "step budget exhausted"))
                return
            s = work.pop()
            try:
                work += self.run_block(s, post)
            except Undecided as u:
                loc = self.m.loc(self.curloc) if self.curloc else []
                self.undecided.append((fname, label, u.why + (" at %s:%d" % (loc[0][0], loc[0][1]) if loc else "")))

    def run_block(self, st, post):
        """run st until it splits or ends a block; returns successor states"""
        while True:
            f = self.m.funcs[st.fn]
            ins = f.blocks[st.blk][st.ip]
            self.steps += 1
            self.instrs.add((st.fn, st.blk, st.ip))
            if ins.dbg:
                self.curloc = ins.dbg
            op = ins.op
            if op == "br":
                return self.goto(st, ins.a[0])
            if op == "condbr":
                c = self.val(st, ("i", 1), ins.a[0])
                if c == UNDEF:
                    self.report(st, "uninitialised", "branches on an uninitialised value")
                    return []
                if c[0] != "b":
                    raise Undecided("branch on %r" % (c,))
                return self.goto(st, ins.a[1] if c[1] else ins.a[2])
            if op == "switch":
                t, c, dflt, cases = ins.a
                v = self.val(st, t, c)
                if v == UNDEF:
                    # cleanup.dest.slot style switches always have a defined value on real paths
                    self.report(st, "uninitialised", "switches on an uninitialised value")
                    return []
                out = []
                cur = [st]
                for cv, l in cases:
                    nxt = []
                    for s in cur:
                        for s2, e in self.split_eq(s, self.val(s, t, c) - cv):
                            if e:
                                out += self.goto(s2, l)
                            else:
                                nxt.append(s2)
                    cur = nxt
                for s in cur:
                    out += self.goto(s, dflt)
                return out
            if op == "ret":
                rv = None if ins.a[1] is None else self.val(st, ins.a[0], ins.a[1])
                if st.frames:
                    fn, blk, ip, env, res = st.frames[-1]
                    st = st.copy()
                    st.frames = st.frames[:-1]
                    # allocas of the returning frame die
                    st.fn, st.blk, st.ip = fn, blk, ip + 1
                    st.env = dict(env)
                    if res is not None:
                        st.env[res] = rv
                    return [st]
                self.finals += 1
                self.curloc = None
                self.final(st, rv, post)
                return []
            if op == "unreachable":
                return []
            res = self.step(st, ins)
            # res: list of states already advanced
            if len(res) == 1:
                st = res[0]
                continue
            return res

    def final(self, st, rv, post):
        st = st.copy()
        st.env = {}
        st.spec["ret"] = rv if rv is not None else ()
        st.elim_eqs()
        st.fold()
        for s, msg in post(self, st):
            if msg:
                loc = [(None, 0, "exit of " + self.entry)]
                rule, text = msg
                self.reports.append(Report(rule, text, loc, s.exact and not s.misc.get("vague") and self.real(s), s.trace, self.entry, self.label))

    def adv(self, st, name, v):
        s = st.copy()
        if name is not None:
            s.env[name] = v
        s.ip = st.ip + 1
        return s

    def goto(self, st, target):
        f = self.m.funcs[st.fn]
        ir.analyse_cfg(f)
        src = st.blk
        st = st.copy()
        phis = []
        n = 0
        for ins in f.blocks[target]:
            if ins.op != "phi":
                break
            n += 1
            t, inc = ins.a
            v = None
            for val, l in inc:
                if l == src:
                    v = self.val(st, t, val) if not (val[0] == "var" and val[1] not in st.env) else UNDEF
                    break
            phis.append((ins.res, v))
        for r, v in phis:
            st.env[r] = v
        st.blk, st.ip = target, n
        st.prevblk = src
        if len(f.succ[src]) > 1:
            loc = self.m.loc(self.curloc)
            if loc:
                x = next((y for y in loc if y[0] and "/ttl/" in y[0]), loc[0])
                st.trace = (st.trace + ("%s:%d->%s" % ((x[0] or "?").split("/")[-1], x[1], target),))[-30:]
        if target in f.heads:
            return self.loop(st, f, src, target)
        return [st]

    def loop(self, st, f, src, h):
        ck = (tuple((a, b) for a, b, c, e, r in st.frames), st.fn, h)
        back = src in f.loops.get(h, ())
        it = dict(st.iters)
        lm = dict(st.loopmem)
        if back:
            if self.meter:
                st.misc["work"] = st.misc.get("work", 0) + 1
            it[ck] = min(it.get(ck, 0) + 1, self.kexact)
        else:
            it[ck] = 0
            lm.pop(ck, None)
            body = f.loops.get(h, ())
            for k in list(it):
                if k[1] == st.fn and k[2] != h and k[2] in body:
                    del it[k]
        for k in [k for k in it if k[1] == st.fn and k[2] != h and k[0] == ck[0] and h not in f.loops.get(k[2], ())]:
            del it[k]
        for k in [k for k in it if len(k[0]) > len(ck[0])]:
            del it[k]
        st.iters = it
        st.loopmem = lm
        keep = f.live_in[h] | set(f.phis[h])
        st.env = {k: v for k, v in st.env.items() if k in keep}
        st.gc_arrays()
        st.elim_eqs()
        st.fold()
        self.loop_hook(st, f, h)
        lm = dict(st.loopmem)         # as mapped by the substitutions made since
        key, slots = st.skeleton()
        prev = lm.get(ck)
        idle = f.idle[h]
        pk, ps = key, slots
        if any(v in idle for v in st.env):
            s2 = st.copy()
            s2.env = {k: v for k, v in st.env.items() if k not in idle}
            pk, ps = s2.skeleton()
        if back and prev is not None and st.exact and prev[0] == pk and tuple(prev[1]) == tuple(ps) \
                and prev[2] == st.misc.get("opq") and not st.misc.get("nofacts"):
            self.report(st, "no-progress", "loop repeats without changing what it depends on (never terminates)")
            return []
        if back and prev is not None and st.exact and prev[0] == pk and prev[2] == st.misc.get("opq") \
                and not st.misc.get("nofacts"):
            s2 = self.recurs(st, prev[1], ps)
            if s2 is not None:
                self.report(s2, "no-progress", "a round of the loop can leave everything it depends on as it was (never terminates)")
        lm[ck] = (pk, tuple(ps), st.misc.get("opq"))
        st.loopmem = lm
        if it[ck] < self.kexact:
            return [st]
        if self.cut:
            self.cuts += 1
            if self.meter and st.exact and self.real(st):
                loc = self.m.loc(self.curloc) if self.curloc else []
                self.cutlog.setdefault(next(("%s:%d (%s)" % (a.split("/repo/")[-1], b, c) for a, b, c in loc if a and "/ttl/" in a), f.name), st.trace)
            return []
        if len(st.chunks) > 48:
            raise Undecided("too many runs of nodes at a loop head")
        st.cons = gc_cons(st.cons, slots)
        tk = (ck, tuple(sorted((str(k), v) for k, v in it.items())), key, st.eff)
        old = self.tables.get(tk)
        if old is None:
            ks = (ck, tuple(sorted((str(k), v) for k, v in it.items())))
            self.count[ks] = self.count.get(ks, 0) + 1
            if self.count[ks] > MAX_STATES_PER_KEYSET:
                raise Undecided("too many abstract states at a loop head")
            self.tables[tk] = [tuple(slots), st.cons, 0, st.exact]
            return [st]
        tsl, tcons, nj, ex = old
        if included(slots, st.cons, tsl, tcons):
            return []
        first = []
        # spec slots first: count their positions
        pos = 0
        new, cons = join_slots(list(tsl), tcons, slots, st.cons, self.spec_positions(st, slots), nj >= 3,
                               tuple(sorted({-a.n.c for a in st.arrs.values() if a.n.is_const() and 1 < a.n.c < 4096}, reverse=True)), self.sums)
        self.joins += 1
        if nj > (30 if self.sums else 12):
            raise Undecided("no convergence at a loop head")
        st = st.copy()
        st.rebuild(new)
        # invariants of the representation: runs are never empty
        for c in st.chunks:
            if not isinstance(c, Cell):
                l = c.hi - c.lo - 1
                if l.t and not entails(cons, l):
                    cons = cons + (l,)
        self.tables[tk] = [tuple(new), cons, nj + 1, False]
        st.cons = cons
        st.exact = False
        return [st]

    def recurs(self, st, before, now):
        """the state in which the last round of the loop changed nothing, if the path admits one: the values before and
        after it are equal under an integer solution of the path condition (no answers of element operations are involved
        beyond those the case fixes)"""
        if len(before) != len(now):
            return None
        diff = [y - x for x, y in zip(before, now) if x != y]
        if any(not d.t for d in diff):
            return None
        known = set(v for c in st.cons for v, _ in c.t) | set(v for y in now for v, _ in y.t)
        if any(v not in known for d in diff for v, _ in d.t):
            return None         # a symbol whose constraints the path has let go
        if any(x[0] != "rf" for x in st.facts):
            return None
        s = st.copy()
        s.spec["~rec"] = tuple(diff)
        for i in range(len(diff)):
            if not s.assume_eq(s.spec["~rec"][i]):
                return None
        s.spec.pop("~rec")
        rfs = [x for x in s.facts]
        for i, a in enumerate(rfs):
            for b in rfs[:i]:
                if a[1] == b[1] and a[5] != b[5] and not (s.entails(b[3] - a[4]) or s.entails(a[3] - b[4])):
                    ka, kb = ([t[:2] if t[0] == "V" else t for t in y[2]] for y in (a, b))
                    if ka == kb:
                        return None
        return s if self.real(s) else None

    def loop_hook(self, st, f, h):
        pass

    def spec_positions(self, st, slots):
        out = []
        n = 0
        for name in ("env", "objs", "chunks", "arrs", "cnt", "facts"):
            v = getattr(st, name)
            l = []
            if isinstance(v, dict):
                for k in sorted(v):
                    vlins(v[k], l)
            else:
                for c in v:
                    vlins(c, l)
            n += len(l)
        l = []
        for k in sorted(st.spec):
            vlins(st.spec[k], l)
        return list(range(n, n + len(l)))

    def gep_check(self, st, A, off):
        a = st.arrs[A]
        q = off.divexact(a.esz)
        if q is None or (st.entails(q) and st.entails(a.n - q)):
            return [(st, off)]
        out = []
        s0 = st.copy()
        s0.spec["~a"] = q
        for s, ok in self.split_ge(s0, q):
            if not ok:
                self.report(s, "advance", "moves an iterator before the beginning of its range")
                continue
            for s2, ok2 in self.split_ge(s, s.arrs[A].n - s.spec["~a"]):
                if not ok2:
                    self.report(s2, "advance", "moves an iterator past the end of its range")
                    continue
                s2 = s2.copy()
                q2 = s2.spec.pop("~a")
                out.append((s2, q2 * a.esz))
        return out

    # ------------------------------------------------------------ instructions
    def step(self, st, ins):
        op = ins.op
        T = self.m.types
        if op == "load":
            t, pv = ins.a
            p = self.val(st, ("ptr",), pv)
            out = []
            for s, v in self.load(st, p, T.size(t)):
                if v != UNDEF and t[0] == "i" and t[1] == 1 and isinstance(v, Lin):
                    v = ("b", v.c & 1) if v.is_const() else v
                if t[0] == "ptr" and isinstance(v, Lin):
                    v = NULL if v == ZERO else UNDEF
                if T.resolve(t)[0] == "struct" and v != UNDEF and v[0] != "agg":
                    # aggregate load: gather fields
                    r = []
                    ok = True
                    rt = T.resolve(t)
                    for i in range(len(rt[1])):
                        o, ft = T.field(rt, i)
                        x = self.load(s, ("p", p[1], p[2] + o), T.size(ft))
                        if len(x) != 1:
                            raise Undecided("aggregate load")
                        r.append(x[0][1])
                    v = ("agg", tuple(r))
                out.append(self.adv(s, ins.res, v))
            return out
        if op == "store":
            t, vv, pv = ins.a
            v = self.val(st, t, vv)
            p = self.val(st, ("ptr",), pv)
            if v[0] == "b" if isinstance(v, tuple) else False:
                v = const(v[1])
            if isinstance(v, tuple) and v[0] == "agg":
                rt = T.resolve(t)
                cur = [st]
                for i in range(len(v[1])):
                    o, ft = T.field(rt, i)
                    nxt = []
                    for s in cur:
                        nxt += self.store(s, ("p", p[1], p[2] + o), v[1][i], T.size(ft))
                    cur = nxt
                return [self.adv(s, None, None) for s in cur]
            return [self.adv(s, None, None) for s in self.store(st, p, v, T.size(t))]
        if op == "getelementptr":
            t, bv, idx = ins.a
            b = self.val(st, ("ptr",), bv)
            if b == UNDEF:
                return [self.adv(st, ins.res, UNDEF)]
            if b[0] != "p":
                raise Undecided("gep base")
            off = b[2]
            i0 = self.val(st, idx[0][0], idx[0][1])
            if i0 == UNDEF or (isinstance(i0, tuple)):
                raise Undecided("gep index")
            off = off + i0 * T.size(t)
            for ity, iv in idx[1:]:
                i = self.val(st, ity, iv)
                rt = T.resolve(t)
                if rt[0] == "arr":
                    off = off + i * T.size(rt[2])
                    t = rt[2]
                else:
                    o, t = T.field(rt, i.c)
                    off = off + o
            if b[1] is not None and b[1][0] == "n" and not off.is_const():
                raise Undecided("symbolic offset into a node")
            if self.geprange and b[1] is not None and b[1][0] == "a" and len(idx) == 1:
                return [self.adv(s, ins.res, ("p", b[1], o)) for s, o in self.gep_check(st, b[1][1], off)]
            return [self.adv(st, ins.res, ("p", b[1], off))]
        if op == "icmp":
            return self.icmp(st, ins)
        if op == "select":
            c, t, a, b = ins.a
            cv = self.val(st, ("i", 1), c)
            if cv == UNDEF:
                self.report(st, "uninitialised", "selects on an uninitialised value")
                return []
            return [self.adv(st, ins.res, self.val(st, t, a if cv[1] else b))]
        if op in ir.BINOPS:
            return self.binop(st, ins)
        if op == "cast":
            k, t, v, t2 = ins.a
            x = self.val(st, t, v)
            if x == UNDEF:
                return [self.adv(st, ins.res, x)]
            if isinstance(x, tuple) and x[0] == "b" and k in ("zext", "sext"):
                x = const(x[1] if k == "zext" else -x[1])
            elif k == "trunc" and t2 == ("i", 1):
                if isinstance(x, Lin) and x.is_const():
                    x = ("b", x.c & 1)
                elif isinstance(x, Lin):
                    raise Undecided("trunc to i1")
            elif k == "trunc" and isinstance(x, Lin) and t2[0] == "i":
                w = t2[1]
                if x.is_const():
                    x = const((x.c + (1 << w - 1)) % (1 << w) - (1 << w - 1))
                elif w <= 32:
                    return self.wrap(st, ins.res, lambda s: self.val(s, t, v), w, 1 << w - 1)
            elif k == "zext" and isinstance(x, Lin) and not x.is_const():
                out = []
                for s, nn in self.split_ge(st, x):
                    if nn:
                        out.append(self.adv(s, ins.res, self.val(s, t, v)))
                    else:
                        out.append(self.adv(s, ins.res, self.val(s, t, v) + (1 << t[1])))
                return out
            return [self.adv(st, ins.res, x)]
        if op == "freeze":
            return [self.adv(st, ins.res, self.val(st, ins.a[0], ins.a[1]))]
        if op == "alloca":
            t, n = ins.a
            o = "L%d%s" % (len(st.frames), ins.res)
            s = self.adv(st, ins.res, obj(o))
            s.objs[o] = Obj(T.size(t), True, "local", (), None)
            return [s]
        if op == "extractvalue":
            t, v, idx = ins.a
            x = self.val(st, t, v)
            for i in idx:
                if x == UNDEF:
                    break
                x = x[1][i]
            return [self.adv(st, ins.res, x)]
        if op == "insertvalue":
            t, v, t2, v2, idx = ins.a
            x = self.val(st, t, v)
            if x == UNDEF:
                rt = T.resolve(t)
                n = len(rt[1]) if rt[0] == "struct" else rt[1]
                x = ("agg", tuple(UNDEF for _ in range(n)))
            if len(idx) != 1:
                raise Undecided("nested insertvalue")
            l = list(x[1])
            l[idx[0]] = self.val(st, t2, v2)
            return [self.adv(st, ins.res, ("agg", tuple(l)))]
        if op == "call":
            return self.call(st, ins)
        raise Undecided("instruction " + op)

    def binop(self, st, ins):
        t, av, bv = ins.a
        a, b = self.val(st, t, av), self.val(st, t, bv)
        op = ins.op
        if a == UNDEF or b == UNDEF:
            return [self.adv(st, ins.res, UNDEF)]
        if isinstance(a, tuple) and a[0] == "b" and isinstance(b, tuple) and b[0] == "b":
            r = {"xor": a[1] ^ b[1], "and": a[1] & b[1], "or": a[1] | b[1]}.get(op)
            if r is None:
                raise Undecided("i1 " + op)
            return [self.adv(st, ins.res, ("b", r))]
        # pointers turned into integers
        if isinstance(a, tuple) or isinstance(b, tuple):
            if op == "sub" and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "p" and b[0] == "p":
                if a[1] == b[1]:
                    return [self.adv(st, ins.res, a[2] - b[2])]
                raise Undecided("difference of pointers into different objects")
            if op == "and" and isinstance(a, tuple) and a[0] == "p" and a[1] is not None and a[1][0] == "f" and isinstance(b, Lin):
                return [self.adv(st, ins.res, ZERO)]
            if op in ("add", "sub") and isinstance(a, tuple) and a[0] == "p" and isinstance(b, Lin):
                return [self.adv(st, ins.res, ("p", a[1], a[2] + b if op == "add" else a[2] - b))]
            raise Undecided("arithmetic on pointers")
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = a * b
            if r is None:
                raise Undecided("nonlinear multiplication")
        elif op in ("sdiv", "udiv", "ashr", "lshr"):
            if not b.is_const():
                raise Undecided("division by a symbolic value")
            k = b.c if op in ("sdiv", "udiv") else (1 << b.c)
            if k <= 0:
                raise Undecided("division")
            r = a.divexact(k)
            if r is None:
                if a.is_const():
                    r = const(a.c // k if a.c >= 0 or op == "ashr" else -((-a.c) // k))
                else:
                    out = []
                    for s, nn in self.split_ge(st, a):
                        a2 = self.val(s, t, av)
                        if not nn:
                            if op in ("udiv", "lshr"):
                                raise Undecided("division of a wrapped value")
                            # truncation towards zero of a negative value
                            s, q = self.quot(s, -a2, k)
                            q = -q
                            out.append(self.adv(s, ins.res, q))
                            continue
                        s, q = self.quot(s, a2, k)
                        out.append(self.adv(s, ins.res, q))
                    return out
        elif op in ("urem", "srem"):
            if a.is_const() and b.is_const() and a.c >= 0 and b.c > 0:
                r = const(a.c % b.c)
            elif b.is_const() and b.c > 0:
                s, q = self.quot(st, a, b.c)
                return [self.adv(s, ins.res, a - q * b.c)]
            else:
                raise Undecided("remainder")
        elif op == "shl":
            if not b.is_const():
                raise Undecided("shift by a symbolic value")
            r = a * (1 << b.c)
        elif op == "xor" and b.is_const() and b.c == -1:
            r = -a - 1
        elif op in ("and", "or", "xor") and a.is_const() and b.is_const():
            r = const({"and": a.c & b.c, "or": a.c | b.c, "xor": a.c ^ b.c}[op])
        elif op == "and" and b.is_const() and b.c > 1 and not b.c & (b.c + 1):
            return self.wrap(st, ins.res, lambda s: self.val(s, t, av), b.c.bit_length(), 0)
        elif op == "and" and b.is_const() and b.c == 1:
            s, q = self.quot(st, a, 2)
            return [self.adv(s, ins.res, a - q * 2)]
        else:
            raise Undecided("bit operation " + op)
        return [self.adv(st, ins.res, r)]

    def quot(self, st, a, k):
        """(state, floor(a / k)): the same dividend gives the same symbol"""
        for v in sorted({s for l in st.cons for s in l.syms() if s[0] == "q"}):
            q = sym(v)
            if st.entails(a - q * k) and st.entails(q * k + (k - 1) - a):
                return st, q
        q = sym(fresh("q"))
        s = st.copy()
        s.cons = s.cons + (a - q * k, q * k + (k - 1) - a)
        return s, q

    def wrap(self, st, res, f, w, bias):
        """states with res = f(state) reduced modulo 2^w into [-bias, 2^w - bias)"""
        out = []
        for s, lo in self.split_ge(st, f(st) + bias):
            for s, hi in self.split_ge(s, const((1 << w) - bias - 1) - f(s)) if lo else [(s, False)]:
                x = f(s)
                if not hi:
                    s, q = self.quot(s, x + bias, 1 << w)
                    x = f(s) - q * (1 << w)
                out.append(self.adv(s, res, x))
        return out

    def icmp(self, st, ins):
        pr, t, av, bv = ins.a
        a, b = self.val(st, t, av), self.val(st, t, bv)
        if a == UNDEF or b == UNDEF:
            self.report(st, "uninitialised", "compares an uninitialised value")
            return []
        if isinstance(a, tuple) and a[0] == "b":
            a = const(a[1])
        if isinstance(b, tuple) and b[0] == "b":
            b = const(b[1])
        if isinstance(a, tuple) and a[0] == "p" and isinstance(b, Lin):
            b = ("p", None, b)
        if isinstance(b, tuple) and b[0] == "p" and isinstance(a, Lin):
            a = ("p", None, a)
        if isinstance(a, tuple):
            if pr in ("eq", "ne"):
                r = self.ptr_eq(st, a, b)
                return [self.adv(s, ins.res, ("b", int(e == (pr == "eq")))) for s, e in r]
            if a[1] == b[1] or (a[1] is None and b[1] is None):
                x, y = a[2], b[2]
                if a[1] is not None and a[1][0] == "n":
                    raise Undecided("relational comparison of nodes")
            elif a[1] is None or b[1] is None:
                # null against a block: null is the smaller address
                x, y = (ZERO, ONE) if a[1] is None else (ONE, ZERO)
            else:
                # separate objects lie in either order, the same one every time they are compared
                ka, kb = sorted((repr(a[1]), repr(b[1])))
                known = st.misc.get("order " + ka + kb)
                if known is None and any(k.startswith("order ") for k in st.misc):
                    raise Undecided("relational comparison of pointers into several objects")
                out = []
                for first in (known,) if known is not None else (ka, kb):
                    s = st.copy()
                    s.misc = dict(s.misc)
                    s.misc["order " + ka + kb] = first
                    l, strict = self.rel(pr, *((ZERO, ONE) if first == repr(a[1]) else (ONE, ZERO)))
                    out += [self.adv(s2, ins.res, ("b", int(e))) for s2, e in self.split_ge(s, l)]
                return out
            l, strict = self.rel(pr, x, y)
            return [self.adv(s, ins.res, ("b", int(e))) for s, e in self.split_ge(st, l)]
        if pr in ("eq", "ne"):
            r = self.split_eq(st, a - b)
            return [self.adv(s, ins.res, ("b", int(e == (pr == "eq")))) for s, e in r]
        if pr[0] == "u":
            out = []
            # wrapped (negative) operands are huge
            for s1, na in self.split_ge(st, a):
                b1 = self.val(s1, t, bv)
                b1 = const(b1[1]) if isinstance(b1, tuple) else b1
                for s2, nb in self.split_ge(s1, b1):
                    a2, b2 = self.val(s2, t, av), self.val(s2, t, bv)
                    if isinstance(a2, tuple):
                        a2 = const(a2[1])
                    if isinstance(b2, tuple):
                        b2 = const(b2[1])
                    if na == nb:
                        l, _ = self.rel(pr, a2, b2)
                        out += [self.adv(s, ins.res, ("b", int(e))) for s, e in self.split_ge(s2, l)]
                    else:
                        big_a = not na
                        r = (pr in ("ugt", "uge")) == big_a
                        out.append(self.adv(s2, ins.res, ("b", int(r))))
            return out
        l, _ = self.rel(pr, a, b)
        return [self.adv(s, ins.res, ("b", int(e))) for s, e in self.split_ge(st, l)]

    def rel(self, pr, x, y):
        k = pr[1:]
        if k == "lt":
            return y - x - 1, True
        if k == "le":
            return y - x, True
        if k == "gt":
            return x - y - 1, True
        return x - y, True

    # ------------------------------------------------------------ calls
    def call(self, st, ins):
        t, callee, args = ins.a
        if callee[0] == "var":
            fv = self.val(st, ("ptr",), callee)
            if fv[0] != "p" or fv[1] is None or fv[1][0] != "f":
                raise Undecided("indirect call")
            name = fv[1][1]
        else:
            name = callee[1]
        if name.startswith("llvm."):
            return self.intrinsic(st, ins, name, args)
        vals = [self.val(st, at, av) for at, av in args]
        s = self.sem.get(name)
        if s is not None:
            self.cursz = self.semsize.get(name, self.esz)
            return [self.adv(x, ins.res, v) for x, v in self.semantic(st, s, vals, ins)]
        if name in ("_Znwm", "_Znam"):
            site = self.site(st, ins)
            if not isinstance(vals[0], Lin):
                raise Undecided("allocation size")
            return [self.adv(x, ins.res, v) for x, v in self.do_new(st, site, vals[0], "new" if name == "_Znwm" else "new[]")]
        if name in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"):
            return [self.adv(x, None, None) for x in self.do_delete(st, vals[0], "new" if name[3] == "l" else "new[]")]
        if name in self.m.funcs:
            if len(st.frames) > 8:
                raise Undecided("call depth")
            f = self.m.funcs[name]
            ir.analyse_cfg(f)
            if (st.fn == name) + sum(x[0] == name for x in st.frames) >= 3:
                self.deep.add(name)
            s = st.copy()
            live = ir.live_after(self.m.funcs[st.fn], st.blk, st.ip)
            s.frames = st.frames + ((st.fn, st.blk, st.ip, {k: v for k, v in st.env.items() if k in live}, ins.res),)
            s.fn, s.blk, s.ip = name, f.order[0], 0
            s.env = dict(zip(f.params, vals))
            return [s]
        raise Undecided("call of unknown external " + name)

    def site(self, st, ins):
        return "%s.%s.%d" % (st.fn, st.blk.strip("%"), st.ip)

    def intrinsic(self, st, ins, name, args):
        if name.startswith(("llvm.lifetime", "llvm.experimental.noalias", "llvm.assume", "llvm.dbg", "llvm.invariant")):
            s = self.adv(st, None, None)
            if name.startswith("llvm.lifetime"):
                p = self.val(st, ("ptr",), args[1][1])
                if p[0] == "p" and p[1] and p[1][0] == "o" and p[1][1] in s.objs:
                    o = s.objs[p[1][1]]
                    live = [v for _, v in o.fields if isinstance(v, tuple) and v[0] == "E"]
                    if name.startswith("llvm.lifetime.end") and live:
                        self.report(st, "leaked-element", "a temporary element is never destroyed")
                        return []
                    s.objs[p[1][1]] = o._replace(fields=())
            return [s]
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            d, sr, n = [self.val(st, a[0], a[1]) for a in args[:3]]
            return [self.adv(s, None, None) for s in self.memcpy(st, d, sr, n)]
        if name.startswith("llvm.memset"):
            d, v, n = [self.val(st, a[0], a[1]) for a in args[:3]]
            if not n.is_const():
                raise Undecided("memset size")
            if d[0] == "p" and d[1] and d[1][0] == "o":
                s = st.copy()
                o = s.objs[d[1][1]]
                f = dict(o.fields)
                for k in list(f):
                    if d[2].c <= k < d[2].c + n.c:
                        del f[k]
                for k in range(d[2].c, d[2].c + n.c, 4 if o.kind == "heap" else 8):
                    f[k] = ZERO
                s.objs[d[1][1]] = o._replace(fields=tuple(sorted(f.items(), key=lambda x: x[0])))
                return [self.adv(s, None, None)]
            raise Undecided("memset")
        if name.startswith("llvm.umul.with.overflow"):      # sizes of requested memory do not wrap
            a, b = [self.val(st, x[0], x[1]) for x in args[:2]]
            if not (isinstance(a, Lin) and isinstance(b, Lin) and (a.is_const() or b.is_const())):
                raise Undecided("multiplication")
            r = a * b.c if b.is_const() else b * a.c
            return [self.adv(st, ins.res, ("agg", (r, FALSE)))]
        if name.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
            a, b = [self.val(st, x[0], x[1]) for x in args[:2]]
            out = []
            for s, ge in self.split_ge(st, a - b):
                a, b = [self.val(s, x[0], x[1]) for x in args[:2]]
                out.append(self.adv(s, ins.res, (a if ge else b) if "max" in name[:9] else (b if ge else a)))
            return out
        raise Undecided("intrinsic " + name)

    def memcpy(self, st, d, sr, n):
        if not isinstance(n, Lin) or not n.is_const():
            self.report(st, "bytewise-copy", "copies element storage bytewise")
            return []
        if n.c == 0:
            return [st]
        if sr[0] != "p" or sr[1] is None or sr[1][0] != "o" or d[0] != "p" or d[1] is None or d[1][0] != "o":
            # word by word
            if n.c % 8 == 0 and n.c <= 64:
                cur = [st]
                for k in range(0, n.c, 8):
                    nxt = []
                    for s in cur:
                        for s2, v in self.load(s, ("p", sr[1], sr[2] + k), 8):
                            nxt += self.store(s2, ("p", d[1], d[2] + k), v, 8)
                    cur = nxt
                return cur
            raise Undecided("memcpy")
        s = st.copy()
        so = s.objs[sr[1][1]]
        do = s.objs[d[1][1]]
        f = {}
        for k, v in so.fields:
            if sr[2].c <= k < sr[2].c + n.c:
                if isinstance(v, tuple) and v[0] == "E":
                    self.report(st, "bytewise-copy", "copies an element bytewise")
                    return []
                f[k - sr[2].c + d[2].c] = v
        g = {k: v for k, v in do.fields if not (d[2].c <= k < d[2].c + n.c)}
        g.update(f)
        s.objs[d[1][1]] = do._replace(fields=tuple(sorted(g.items(), key=lambda x: x[0])))
        return [s]

    def semantic(self, st, s, vals, ins):
        """element operations; returns [(st, value)]"""
        kind = s[0]
        if kind == "ctor":
            st = st.copy()
            st.eff = st.eff | {"E.ctor"}
            return [(x, None) for x in self.e_write(st, vals[0], ("def",), "constructs", True)]
        if kind == "copy":
            out = []
            st = st.copy()
            st.eff = st.eff | {"E.copy"}
            st.spec["~d"] = vals[0]
            for s1, tok in self.e_read(st, vals[1], "copies from"):
                s1 = s1.copy()
                d = s1.spec.pop("~d")
                out += [(x, None) for x in self.e_write(s1, d, tok, "copy-constructs", True)]
            return out
        if kind == "dtor":
            st = st.copy()
            st.eff = st.eff | {"E.dtor"}
            return [(x, None) for x in self.e_write(st, vals[0], None, "destroys", False)]
        if kind == "assign":
            out = []
            st = st.copy()
            st.eff = st.eff | {"E.assign"}
            st.spec["~d"] = vals[0]
            for s1, tok in self.e_read(st, vals[1], "assigns from"):
                s1 = s1.copy()
                d = s1.spec.pop("~d")
                s1.spec["~r"] = d
                for x in self.e_write(s1, d, tok, "assigns to", False):
                    out.append((x, x.spec.pop("~r")))
            return out
        if kind == "pred":
            pred = s[1]
            argpos = s[2]
            st = st.copy()
            st.eff = st.eff | {"call " + pred}
            cur = [st]
            for k, pos in enumerate(argpos):
                st.spec["~q%d" % k] = vals[pos]
            toks = [st]
            for k in range(len(argpos)):
                nxt = []
                for x in toks:
                    for y, tok in self.e_read(x, x.spec["~q%d" % k], "compares"):
                        y = y.copy()
                        y.spec["~k%d" % k] = tok
                        nxt.append(y)
                toks = nxt
            out = []
            for x in toks:
                x = x.copy()
                args = tuple(x.spec.pop("~k%d" % k) for k in range(len(argpos)))
                for k in range(len(argpos)):
                    x.spec.pop("~q%d" % k)
                if self.meter:
                    x.misc["asked"] = x.misc.get("asked", ()) + (args,)
                out += self.pred(x, pred, args)
            return out
        if kind == "apply":     # opaque procedure on an element (for_each)
            st = st.copy()
            st.misc["opq"] = st.misc.get("opq", 0) + 1
            st.spec["~d"] = vals[s[1]]
            out = []
            for s1, tok in self.e_read(st, vals[s[1]], "applies a function to"):
                s1 = s1.copy()
                d = s1.spec.pop("~d")
                for x in self.e_write(s1, d, apply_tok("f", (tok,)), "applies a function to", False):
                    out.append((x, None))
            return out
        if kind == "fn":        # opaque function returning an element (constructed in the result slot)
            st = st.copy()
            st.spec["~d"] = vals[s[2]]
            for k, pos in enumerate(s[3]):
                st.spec["~q%d" % k] = vals[pos]
            toks = [st]
            for k in range(len(s[3])):
                nxt = []
                for x in toks:
                    for y, tok in self.e_read(x, x.spec["~q%d" % k], "computes from"):
                        y = y.copy()
                        y.spec["~k%d" % k] = tok
                        nxt.append(y)
                toks = nxt
            out = []
            for x in toks:
                x = x.copy()
                args = tuple(x.spec.pop("~k%d" % k) for k in range(len(s[3])))
                for k in range(len(s[3])):
                    x.spec.pop("~q%d" % k)
                d = x.spec.pop("~d")
                out += [(y, None) for y in self.e_write(x, d, apply_tok(s[1], args), "constructs", True)]
            return out
        if kind == "inc":
            st = st.copy()
            st.spec["~d"] = vals[s[1]]
            out = []
            for s1, tok in self.e_read(st, vals[s[1]], "increments"):
                s1 = s1.copy()
                d = s1.spec.pop("~d")
                s1.spec["~r"] = d
                for x in self.e_write(s1, d, apply_tok(s[2] if len(s) > 2 else "inc", (tok,)), "increments", False):
                    out.append((x, x.spec.pop("~r")))
            return out
        if kind == "gen":       # the k-th value of an opaque generator
            g = st.objs.get("gen")
            if g is None:
                raise Undecided("generator without a state")
            k = dict(g.fields)[0]
            st = st.copy()
            st.objs["gen"] = g._replace(fields=((0, k + 1),))
            return [(x, None) for x in self.e_write(st, vals[s[1]], ("V", "gen", k), "constructs", True)]
        raise Undecided("semantic " + kind)

    def pred(self, st, pred, args):
        if st.misc.get("nofacts"):      # case about memory only: the answer is arbitrary every time
            return [(st.copy(), ("b", b)) for b in (1, 0)]
        if len(args) == 2 and (pred in ("eq", "lt") or pred in self.order):
            a, b = args
            if a != b and a[0] == "V" and b[0] == "V" and a[1] == b[1] and (a[2] - b[2]).t:
                out = []        # the same element? decide before asking
                s0 = st.copy()
                s0.spec["~pa"] = args
                for s, same in self.split_eq(s0, a[2] - b[2]):
                    s = s.copy()
                    x, y = s.spec.pop("~pa")
                    if same:
                        out.append((s, ("b", 1 if pred == "eq" else 0)))
                    else:
                        out += self.pred2(s, pred, (x, y))
                return out
        return self.pred2(st, pred, args)

    def pred2(self, st, pred, args):
        v = factmod.lookup(st, pred, args)
        if v is None and pred == "eq":
            v = factmod.lookup(st, pred, (args[1], args[0]))
            if v is None and args[0] == args[1]:
                v = 1
        if v is None and pred == "lt" and args[0] == args[1]:
            v = 0
        if v is None and pred in self.order:
            v = factmod.order_lookup(st, pred, args[0], args[1])
        if v is not None:
            if len(args) == 1:
                st = st.copy()
                st.misc["twice"] = (pred, args[0])
            return [(st, ("b", v))]
        # a known range whose bounds are not ordered against the position yet
        for f in st.facts:
            if f[0] != "rf" or f[1] != pred:
                continue
            at = factmod.position(f, args)
            if at is None:
                continue
            out = ()
            for l in (at - f[3], f[4] - 1 - at):
                if not st.entails(l) and not st.entails(-l - 1):
                    out = ((st.copy(), l), (st.copy(), -l - 1))
                    break
                if st.entails(-l - 1):
                    break
            if not out:
                continue
            res = []
            for x, l in out:
                x.spec["~pa"] = args
                if x.assume_ge(l):
                    a2 = x.spec.pop("~pa")
                    res += self.pred2(x, pred, a2)
            return res
        out = []
        for b in (1, 0):
            s = st.copy()
            s.facts = s.facts + (("pf", pred, args, b),)
            out.append((s, ("b", b)))
        return out
