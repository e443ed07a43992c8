"""Abstract state: affine values, named objects, node families (list segments), partitioned arrays, facts."""
from collections import namedtuple
from fractions import Fraction
import itertools
from math import gcd
from lin import Lin, ZERO, ONE, const, sym, entails, infeasible, feasible_with, project, norm_ineq, relevant

Cell = namedtuple("Cell", "F lo fields")            # one node, explicit fields ((off, value), ...)
Seg = namedtuple("Seg", "F lo hi d fprev lnext cont")  # chain of nodes F[lo..hi)  (lo<hi), d=+1: lo first, d=-1: hi-1 first
Free = namedtuple("Free", "F lo hi")                # released nodes
Arr = namedtuple("Arr", "esz n alive kind chunks")  # chunks: ((lo,hi,cont),...) in order covering [0,n)
Obj = namedtuple("Obj", "size alive kind fields inline")  # fields: tuple sorted ((off,value),...) inline: (arrname,start,n,esz) or None

UNDEF = ("u",)
RAW = ("raw",)
NULL = ("p", None, ZERO)
TRUE = ("b", 1)
FALSE = ("b", 0)


def node(F, i, off=0):
    return ("p", ("n", F, i), const(off))


def obj(o, off=0):
    return ("p", ("o", o), const(off))


def aptr(A, off):
    return ("p", ("a", A), off)


_ctr = itertools.count(1)


def fresh(prefix="k"):
    return prefix + "!" + str(next(_ctr))


def vmap(v, f):
    """apply f to every Lin in a nested tuple value"""
    if isinstance(v, Lin):
        return f(v)
    if isinstance(v, tuple):
        new = [vmap(x, f) for x in v]
        for a, b in zip(new, v):
            if a is not b:
                return type(v)._make(new) if hasattr(v, "_make") else tuple(new)
        return v
    return v


def vlins(v, out):
    if isinstance(v, Lin):
        out.append(v)
    elif isinstance(v, tuple):
        for x in v:
            vlins(x, out)


def vskel(v, out, sc=None):
    """skeleton with Lins replaced, Lins appended to out; sc: (array name -> element size) pointers into arrays are
    recorded as element index plus constant remainder"""
    if isinstance(v, Lin):
        if v.coef("@"):
            out.append(v - sym("@"))
            return "#@"
        out.append(v)
        return "#"
    if isinstance(v, tuple):
        if sc and len(v) == 3 and v[0] == "p" and v[1] is not None and v[1][0] in ("a", "o") and isinstance(v[2], Lin):
            k = scale_of(v[1], sc)
            if k:
                r = v[2].c % k
                q = (v[2] - r).divexact(k)
                if q is not None:
                    out.append(q)
                    return ("p", v[1], "#*", r)
        if hasattr(v, "_make"):
            return (type(v).__name__,) + tuple(vskel(x, out, sc) for x in v)
        return tuple(vskel(x, out, sc) for x in v)
    return v


def scale_of(b, sc):
    if b[0] == "a":
        return sc.get(b)
    return sc.get(b)


def vrebuild(v, it, sc):
    """mirror of vskel: replaces the Lins of v by those of it"""
    if isinstance(v, Lin):
        return next(it) + sym("@") if v.coef("@") else next(it)
    if isinstance(v, tuple):
        if sc and len(v) == 3 and v[0] == "p" and v[1] is not None and v[1][0] in ("a", "o") and isinstance(v[2], Lin):
            k = scale_of(v[1], sc)
            if k:
                r = v[2].c % k
                q = (v[2] - r).divexact(k)
                if q is not None:
                    return ("p", v[1], next(it) * k + r)
        new = [vrebuild(x, it, sc) for x in v]
        for a, b in zip(new, v):
            if a is not b:
                return type(v)._make(new) if hasattr(v, "_make") else tuple(new)
        return v
    return v


class Layout:
    """field offsets of a node kind: link fields and element payloads"""

    def __init__(self, name, size, nxt, prv, payload):
        self.name = name
        self.size = size
        self.nxt = nxt
        self.prv = prv
        self.payload = payload


class Undecided(Exception):
    def __init__(self, why):
        Exception.__init__(self, why)
        self.why = why


class State:
    __slots__ = ("env", "cons", "objs", "chunks", "arrs", "facts", "cnt", "eff", "iters", "spec", "trace", "exact",
                 "fn", "blk", "ip", "frames", "prevblk", "lay", "loopmem", "prov", "misc", "log")

    def __init__(self):
        self.env = {}
        self.cons = ()
        self.objs = {}
        self.chunks = ()
        self.arrs = {}
        self.facts = ()
        self.cnt = {}
        self.eff = frozenset()
        self.iters = {}
        self.spec = {}
        self.trace = ()
        self.exact = True
        self.fn = self.blk = self.prevblk = None
        self.ip = 0
        self.frames = ()
        self.lay = {}
        self.loopmem = {}
        self.prov = {}
        self.misc = {}
        self.log = ()           # substitutions applied so far (case construction only; None: not recorded)

    def norm(self, l):
        for m in self.log or ():
            l = l.subst(m)
        return l

    def renorm(self):
        """re-apply the recorded substitutions to values that were put into the state afterwards"""
        if self.log:
            self.maplins(self.norm)

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.cons = self.cons
        s.objs = dict(self.objs)
        s.chunks = self.chunks
        s.arrs = dict(self.arrs)
        s.facts = self.facts
        s.cnt = dict(self.cnt)
        s.eff = self.eff
        s.iters = self.iters
        s.spec = dict(self.spec)
        s.trace = self.trace
        s.exact = self.exact
        s.fn, s.blk, s.ip, s.frames, s.prevblk = self.fn, self.blk, self.ip, self.frames, self.prevblk
        s.lay = dict(self.lay)
        s.loopmem = self.loopmem
        s.prov = dict(self.prov)
        s.misc = dict(self.misc)
        s.log = self.log
        return s

    # ---- numeric
    def entails(self, l):
        return entails(self.cons, l)

    def entails_eq(self, a, b):
        d = a - b
        if not d.t:
            return d.c == 0
        return self.entails(d) and self.entails(-d)

    def assume_ge(self, l):
        """assume l >= 0; False if infeasible (mutates)"""
        if self.log:
            l = self.norm(l)
        l = norm_ineq(l)
        if l is None:
            return True
        if l is False:
            return False
        if self.entails(l):
            return True
        if not feasible_with(self.cons, l):
            return False
        # equality?
        if self.entails(-l):
            return self.assume_eq(l)
        self.cons = self.cons + (l,)
        return True

    def assume_eq(self, l):
        if self.log:
            l = self.norm(l)
        if not l.t:
            return l.c == 0
        if not feasible_with(self.cons, l, -l):
            return False
        best = None
        for s, k in l.t:
            if k in (1, -1):
                # eliminate fresh symbols first, named parameters last
                rank = (0 if "!" in s else 1, -len(s), s)
                if best is None or rank < best[0]:
                    best = (rank, s, k)
        if best is None:
            self.cons = self.cons + (l, -l)
            return True
        _, s, k = best
        rest = Lin(l.c, tuple(x for x in l.t if x[0] != s))
        e = rest * (-1) if k == 1 else rest
        return self.subst({s: e})

    def subst(self, m):
        if self.log is not None:
            self.log = self.log + (m,)
        self.maplins(lambda l: l.subst(m))
        new = []
        seen = set()
        for c in self.cons:
            c2 = norm_ineq(c.subst(m))
            if c2 is None:
                continue
            if c2 is False:
                return False
            if c2 not in seen:
                seen.add(c2)
                new.append(c2)
        self.cons = tuple(new)
        return True

    def elim_eqs(self):
        """turn equalities implied by the constraints into substitutions"""
        again = True
        while again:
            again = False
            for c in self.cons:
                if self.entails(-c) and any(k in (1, -1) for _, k in c.t):
                    self.cons = tuple(x for x in self.cons if x != c)
                    self.assume_eq(c)
                    again = True
                    break

    def maplins(self, f):
        """map every Lin of the state except constraints, in canonical order"""
        self.env = {k: vmap(self.env[k], f) for k in sorted(self.env)}
        self.objs = {k: vmap(self.objs[k], f) for k in sorted(self.objs)}
        self.chunks = tuple(vmap(c, f) for c in self.chunks)
        self.arrs = {k: vmap(self.arrs[k], f) for k in sorted(self.arrs)}
        self.cnt = {k: vmap(self.cnt[k], f) for k in sorted(self.cnt)}
        self.facts = tuple(vmap(x, f) for x in self.facts)
        self.spec = {k: vmap(self.spec[k], f) for k in sorted(self.spec)}
        self.prov = {k: vmap(self.prov[k], f) for k in sorted(self.prov)}
        self.frames = tuple((a, b, c, vmapenv(e, f), r) for a, b, c, e, r in self.frames)
        if self.exact and self.loopmem:
            self.loopmem = {k: (v[0], tuple(f(x) for x in v[1])) + v[2:] for k, v in self.loopmem.items()}

    def skeleton(self):
        """(hashable key, list of Lins) in canonical order"""
        out = []
        sk = []
        sc = self.scales()
        for name in ("env", "objs", "chunks", "arrs", "cnt", "facts", "spec", "prov"):
            v = getattr(self, name)
            if isinstance(v, dict):
                sk.append(tuple((k, vskel(v[k], out, sc)) for k in sorted(v)))
            else:
                sk.append(tuple(vskel(c, out, sc) for c in v))
        for a, b, c, e, r in self.frames:
            sk.append((a, b, c, tuple((k, vskel(e[k], out, sc)) for k in sorted(e)), r))
        return tuple(sk), out

    def scales(self):
        sc = {("a", A): a.esz for A, a in self.arrs.items()}
        for o, v in self.objs.items():
            if v.inline:
                sc[("o", o)] = v.inline[3]
        return sc

    def rebuild(self, lins):
        """replace every slot (in skeleton order) by the given ones"""
        it = iter(lins)
        sc = self.scales()
        for name in ("env", "objs", "chunks", "arrs", "cnt", "facts", "spec", "prov"):
            v = getattr(self, name)
            if isinstance(v, dict):
                setattr(self, name, {k: vrebuild(v[k], it, sc) for k in sorted(v)})
            else:
                setattr(self, name, tuple(vrebuild(c, it, sc) for c in v))
        self.frames = tuple((a, b, c, {k: vrebuild(e[k], it, sc) for k in sorted(e)}, r) for a, b, c, e, r in self.frames)

    # ---- canonical form
    def order_chunks(self):
        by = {}
        for c in self.chunks:
            by.setdefault(c.F, []).append(c)
        out = []
        for F in sorted(by):
            cs = by[F]
            if len(cs) > 1:
                cs = self._sort(cs)
            out += cs
        self.chunks = tuple(out)

    def _sort(self, cs):
        res = []
        for c in cs:
            pos = len(res)
            for j in range(len(res)):
                d = res[j].lo - c.lo
                if d.t:
                    lt = self.entails(d - 1)
                else:
                    lt = d.c > 0
                if lt:
                    pos = j
                    break
            res.insert(pos, c)
        return res

    def hi(self, c):
        return c.lo + 1 if isinstance(c, Cell) else c.hi

    def replace_chunk(self, old, news):
        l = list(self.chunks)
        i = l.index(old)
        l[i:i + 1] = news
        self.chunks = tuple(l)

    def fold(self):
        """merge adjacent summaries into canonical maximal ones"""
        # cells with complete links become unit segments
        out = []
        for c in self.chunks:
            if isinstance(c, Cell):
                s = self.cell2seg(c)
                out.append(s or c)
            else:
                out.append(c)
        self.chunks = tuple(out)
        self.order_chunks()
        changed = True
        while changed:
            changed = False
            cs = self.chunks
            for i in range(len(cs) - 1):
                a, b = cs[i], cs[i + 1]
                if a.F != b.F:
                    continue
                m = self.merge2(a, b)
                if m is not None:
                    self.chunks = cs[:i] + (m,) + cs[i + 2:]
                    changed = True
                    break
        for A in list(self.arrs):
            self.arrs[A] = self.fold_arr(self.arrs[A])
        from facts import fold_facts
        self.facts = fold_facts(self, self.facts)

    def gc_arrays(self):
        """forget released blocks nothing refers to any more; number the remaining blocks of a site canonically"""
        dead = [A for A, a in self.arrs.items() if not a.alive]
        if not dead and not any("~" in A for A in self.arrs):
            return
        ref = set()
        for name in ("env", "objs", "chunks", "cnt", "facts", "prov"):
            v = getattr(self, name)
            blocks_in(list(v.values()) if isinstance(v, dict) else v, ref)
        blocks_in([v for k, v in self.spec.items() if not k.startswith("newkind ")], ref)
        for fr in self.frames:
            blocks_in(list(fr[3].values()), ref)
        for A in dead:
            if A not in ref:
                del self.arrs[A]
                self.spec.pop("newkind " + A, None)
        for A in sorted(x for x in self.arrs if "~" in x):
            base, k = A.rsplit("~", 1)
            for j in range(int(k)):
                B = base if j == 0 else "%s~%d" % (base, j)
                if B not in self.arrs:
                    self.rename_arr(A, B)
                    break

    def rename_arr(self, A, B):
        f = lambda v: rename_block(v, A, B)
        for name in ("env", "objs", "arrs", "cnt", "spec", "prov"):
            v = getattr(self, name)
            setattr(self, name, {k: f(v[k]) for k in v})
        self.chunks, self.facts = f(self.chunks), f(self.facts)
        self.frames = tuple((a, b, c, {k: f(e[k]) for k in e}, r) for a, b, c, e, r in self.frames)
        self.arrs[B] = self.arrs.pop(A)
        if "newkind " + A in self.spec:
            self.spec["newkind " + B] = self.spec.pop("newkind " + A)

    def fold_arr(self, a):
        out = []
        for (lo, hi, ct) in a.chunks:
            if lo == hi or self.entails_eq(lo, hi):
                continue
            if out:
                plo, phi, pct = out[-1]
                if phi == lo:
                    m = merge_content(pct, plo, phi, ct, lo, hi)
                    if m is not None:
                        out[-1] = (plo, hi, m)
                        continue
            out.append((lo, hi, ct))
        return a._replace(chunks=tuple(out))

    def cell2seg(self, c):
        L = self.lay.get(c.F)
        if L is None:
            return None
        f = dict(c.fields)
        n = None
        if L.nxt is not None:
            n = f.pop(L.nxt, None)
            if n is None or n[0] != "p":
                return None
        p = None
        if L.prv is not None:
            p = f.pop(L.prv, None)
            if p is None or p[0] != "p":
                return None
        cont = []
        for off in L.payload:
            v = f.pop(off, None)
            if v is None:
                cont.append((off, RAW))
            else:
                ct = content_of(v, c.lo)
                if ct is None:
                    return None
                cont.append((off, ct))
        if f:
            return None
        return Seg(c.F, c.lo, c.lo + 1, 1, p, n, tuple(cont))

    def merge2(self, a, b):
        if self.hi(a) != b.lo:
            return None
        if isinstance(a, Free) and isinstance(b, Free):
            return Free(a.F, a.lo, b.hi)
        if not (isinstance(a, Seg) and isinstance(b, Seg)):
            return None
        L = self.lay[a.F]
        ua, ub = (a.hi - a.lo) == ONE, (b.hi - b.lo) == ONE
        cont = []
        for (o1, c1), (o2, c2) in zip(a.cont, b.cont):
            m = merge_content(c1, a.lo, a.hi, c2, b.lo, b.hi)
            if m is None:
                return None
            cont.append((o1, m))
        if L.nxt is None:
            return Seg(a.F, a.lo, b.hi, 1, None, None, tuple(cont))
        if (a.d == 1 or ua) and (b.d == 1 or ub):
            if a.lnext == node(a.F, b.lo) and (L.prv is None or b.fprev == node(a.F, a.hi - 1)):
                return Seg(a.F, a.lo, b.hi, 1, a.fprev, b.lnext, tuple(cont))
        if (a.d == -1 or ua) and (b.d == -1 or ub):
            if b.lnext == node(a.F, a.hi - 1) and (L.prv is None or a.fprev == node(a.F, b.lo)):
                return Seg(a.F, a.lo, b.hi, -1, b.fprev, a.lnext, tuple(cont))
        return None


def blocks_in(v, out):
    """names of the arrays referred to in a nested value"""
    if isinstance(v, (tuple, list)):
        if len(v) == 2 and v[0] == "a" and isinstance(v[1], str):
            out.add(v[1])
            return
        for x in v:
            if isinstance(x, (tuple, list)):
                blocks_in(x, out)


def rename_block(v, A, B):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "a" and v[1] == A:
            return ("a", B)
        new = [rename_block(x, A, B) for x in v]
        for a, b in zip(new, v):
            if a is not b:
                return type(v)._make(new) if hasattr(v, "_make") else tuple(new)
    return v


def vmapenv(e, f):
    return {k: vmap(e[k], f) for k in sorted(e)}


def content_of(v, i):
    """content function of a single value at index i"""
    if v == RAW or v is None:
        return RAW
    if v[0] == "E":
        t = v[1]
        if t[0] == "V":
            return ("V", t[1], t[2] - i)
        return ("C", t)
    if v[0] == "p" and v[1] is not None and v[1][0] == "n":
        return ("Pn", v[1][1], v[1][2] - i, v[2])
    return ("K", v)


def content_at(ct, i):
    k = ct[0]
    if k == "raw":
        return RAW
    if k == "V":
        return ("E", ("V", ct[1], i + ct[2]))
    if k == "C":
        return ("E", ct[1])
    if k == "Pn":
        return ("p", ("n", ct[1], i + ct[2]), ct[3])
    return ct[1]


def merge_content(c1, lo1, hi1, c2, lo2, hi2):
    if c1 == c2:
        return c1
    # reversed content: descending slices are kept as  ('R', S, d): S[d - i]
    def unit(c, lo, hi):
        return c[0] == "V" and (hi - lo) == ONE
    if c1[0] in ("V", "R") and c2[0] in ("V", "R") and c1[1] == c2[1]:
        if (unit(c1, lo1, hi1) or c1[0] == "R") and (unit(c2, lo2, hi2) or c2[0] == "R"):
            d1 = c1[2] if c1[0] == "R" else (c1[2] + lo1) + lo1
            d2 = c2[2] if c2[0] == "R" else (c2[2] + lo2) + lo2
            if d1 == d2:
                return ("R", c1[1], d1)
    return None


_oc = content_at


def content_at(ct, i):  # noqa: F811  (adds the descending form)
    if ct[0] == "R":
        return ("E", ("V", ct[1], ct[2] - i))
    return _oc(ct, i)


# ------------------------------------------------------------------ join / inclusion
def gc_cons(cons, lins):
    keep = set()
    for l in lins:
        for s, _ in l.t:
            keep.add(s)
    alls = set()
    for c in cons:
        for s, _ in c.t:
            alls.add(s)
    el = alls - keep
    if not el:
        return tuple(cons)
    return tuple(reduce_cons(project(cons, el)))


def reduce_cons(cons):
    cons = list(cons)
    if len(cons) > 40:
        return cons
    out = []
    rest = list(cons)
    while rest:
        c = rest.pop()
        if not entails(tuple(out + rest), c):
            out.append(c)
    out.reverse()
    return out


def included(s_slots, s_cons, t_slots, t_cons):
    """state with slots s is contained in abstract state t (same skeleton)"""
    m = {}
    todo = list(range(len(t_slots)))
    prog = True
    while prog and todo:
        prog = False
        rest = []
        for i in todo:
            t = t_slots[i].subst(m)
            un = [s for s, _ in t_slots[i].t if s not in m]
            if not un:
                rest.append(i)
                continue
            if len(un) == 1:
                s = un[0]
                k = t_slots[i].coef(s)
                r = s_slots[i]
                for s2, k2 in t_slots[i].t:
                    if s2 != s:
                        r = r - m[s2] * k2
                r = r - t_slots[i].c
                q = r.divexact(k) if k not in (1, -1) else r * k
                if q is None:
                    return False
                m[s] = q
                prog = True
            rest.append(i)
        todo = rest
        if all(all(s in m for s, _ in t_slots[i].t) for i in todo):
            break
    for i in range(len(t_slots)):
        if any(s not in m for s, _ in t_slots[i].t):
            return False
        # simultaneous substitution: m values are over s symbols
        v = Lin(t_slots[i].c)
        for s, k in t_slots[i].t:
            v = v + m[s] * k
        d = v - s_slots[i]
        if d.t or d.c:
            if not (entails(s_cons, d) and entails(s_cons, -d)):
                return False
    for c in t_cons:
        v = Lin(c.c)
        ok = True
        for s, k in c.t:
            if s not in m:
                ok = False
                break
            v = v + m[s] * k
        if not ok:
            return False
        if not entails(s_cons, v):
            return False
    return True


def to_zspace(slots, cons, pivots, zs):
    """constraints over z symbols implied by cons with z_j = slots[p_j]"""
    eqs = [sym(z) - slots[p] for p, z in zip(pivots, zs)]
    zset = set(zs)
    cons = list(cons)
    outeq = []
    while eqs:
        e = eqs.pop(0)
        best = None
        for s, k in e.t:
            if s not in zset and k in (1, -1):
                best = (s, k)
                break
        if best is None:
            if any(s not in zset for s, _ in e.t):
                cons += [e, -e]
            else:
                outeq.append(e)
            continue
        s, k = best
        rest = Lin(e.c, tuple(x for x in e.t if x[0] != s))
        r = rest * (-1) if k == 1 else rest
        m = {s: r}
        cons = [c.subst(m) for c in cons]
        eqs = [x.subst(m) for x in eqs]
    for e in outeq:
        cons += [e, -e]
    others = set()
    for c in cons:
        for s, _ in c.t:
            if s not in zset:
                others.add(s)
    if others:
        cons = project(cons, others)
    out = []
    for c in cons:
        c = norm_ineq(c)
        if c is not None and c is not False:
            out.append(c)
    return tuple(dict.fromkeys(out))


def join_slots(ts, tc, ss, sc, first, widen, thresholds=(), sums=False):
    """affine hull of the equalities (Karr) and weak join of inequalities. first: slot indices to prefer as free"""
    n = len(ts)
    rows = []

    def dirs(sl):
        syms = set()
        for l in sl:
            for s, _ in l.t:
                syms.add(s)
        for s in sorted(syms):
            rows.append([Fraction(l.coef(s)) for l in sl])
    dirs(ts)
    dirs(ss)
    rows.append([Fraction(b.c) - Fraction(a.c) for a, b in zip(ts, ss)])
    order = list(first) + [i for i in range(n) if i not in set(first)]
    piv = []
    r = 0
    rows = [x for x in rows if any(x)]
    for col in order:
        p = None
        for i in range(r, len(rows)):
            if rows[i][col] != 0:
                p = i
                break
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        k = rows[r][col]
        rows[r] = [x / k for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][col] != 0:
                k = rows[i][col]
                rows[i] = [x - k * y for x, y in zip(rows[i], rows[r])]
        piv.append(col)
        r += 1
    zs = [fresh("z") for _ in piv]
    base = [l.c for l in ts]
    new = []
    extra = []
    keep = []
    for i in range(n):
        den = 1
        for j in range(len(piv)):
            k = rows[j][i]
            if k:
                den = den * k.denominator // gcd(den, k.denominator)
        l = Lin(base[i] * den)
        for j, p in enumerate(piv):
            k = rows[j][i] * den
            if k:
                l = l + (sym(zs[j]) - base[p]) * int(k)
        if den != 1:
            # not an integer combination of the pivots: an extra symbol tied by an equality
            z = fresh("z")
            extra.append((i, z))
            keep += [sym(z) * den - l, l - sym(z) * den]
            l = sym(z)
        new.append(l)
    piv2, zs2 = piv + [i for i, _ in extra], zs + [z for _, z in extra]
    ct = to_zspace(ts, tc, piv2, zs2)
    cs = to_zspace(ss, sc, piv2, zs2)
    for c in ct:
        if entails(cs, c):
            keep.append(c)
    if not widen:
        for c in cs:
            if c not in keep and entails(ct, c):
                keep.append(c)
    # candidate bounds: pivots, and differences of slot values
    forms = []
    for l in [sym(z) for z in zs] + new:
        l = l - l.c
        if l.t and l not in forms:
            forms.append(l)
    cand = []
    upper = set()
    if len(forms) <= 16:
        for i, a in enumerate(forms):
            cand += [a, -a]
            upper.add(-a)
            for j, b in enumerate(forms):
                if i != j:
                    d = a - b
                    if d.t and d not in cand:
                        cand.append(d)
    if sums and len(forms) <= 10:
        for i, a in enumerate(forms):
            for b in forms[i:]:
                for c in forms:
                    if c != a and c != b:
                        d = a + b - c
                        for x in (d, -d):
                            if x.t and x not in cand:
                                cand.append(x)
    for c0 in cand:
        ks = (3, 2, 1, 0, -1) if not widen else (2, 1, 0)
        if c0 in upper:
            ks = ks + thresholds
        for k in ks:
            c = c0 - k
            if entails(tuple(keep), c):
                break
            if entails(ct, c) and entails(cs, c):
                keep.append(c)
                break
    keep = tuple(reduce_cons(keep))
    again = True
    while again:
        again = False
        for c in keep:
            if entails(keep, -c):
                u = [(s, k) for s, k in c.t if k in (1, -1)]
                if not u:
                    continue
                s, k = u[0]
                rest = Lin(c.c, tuple(x for x in c.t if x[0] != s))
                e = {s: rest * (-1) if k == 1 else rest}
                new = [l.subst(e) for l in new]
                keep = tuple(dict.fromkeys(x for x in (norm_ineq(y.subst(e)) for y in keep) if x is not None and x is not False))
                again = True
                break
    return new, keep
