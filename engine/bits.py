"""Bit-provenance dataflow over LLVM IR.

Every bit of every word is abstracted by a Boolean function (truth table) of at most MAXV bits of the initial state; memory
is byte-addressed objects of such bits. Sizes, positions and loop counters are constants of the analysed instance. The two
sides of a branch on a bit are joined bit by bit where they meet (gated join); a branch on "some bit of this word is set"
partitions. No solver: deviations are decided by comparing truth tables, and a deviation is
only reported together with a valuation of the initial bits that exhibits it.
"""
import heapq
import random
import ir

MAXV = 6


class Undec(Exception):
    pass


class Stop(Exception):
    """path ends (violation reported or infeasible)"""


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


# ---- Boolean functions: 0, 1 or (vars, table); bit i of table = value when the k-th var is (i>>k)&1
def lit(v):
    return ((v,), 2)


def reduce_bf(vs, tt):
    vs = list(vs)
    k = 0
    while k < len(vs):
        n = len(vs)
        lo = hi = 0
        p = 0
        for i in range(1 << n):
            b = (tt >> i) & 1
            if (i >> k) & 1:
                continue
            lo |= b << p
            hi |= ((tt >> (i | 1 << k)) & 1) << p
            p += 1
        if lo == hi:
            tt = lo
            del vs[k]
        else:
            k += 1
    if not vs:
        return tt & 1
    return (tuple(vs), tt)


_cache = {}


def expand(f, vs):
    """truth table of f over the variable list vs"""
    if f in (0, 1):
        return ((1 << (1 << len(vs))) - 1) * f
    key = (f, vs)
    r = _cache.get(key)
    if r is None:
        idx = [vs.index(v) for v in f[0]]
        r = 0
        for i in range(1 << len(vs)):
            j = 0
            for k, p in enumerate(idx):
                j |= ((i >> p) & 1) << k
            r |= ((f[1] >> j) & 1) << i
        if len(_cache) < 200000:
            _cache[key] = r
    return r


def op2(fn, a, b):
    va = a[0] if a not in (0, 1) else ()
    vb = b[0] if b not in (0, 1) else ()
    vs = va if va == vb else tuple(sorted(set(va) | set(vb)))
    if len(vs) > MAXV:
        raise Undec("a bit depends on more than %d bits" % MAXV)
    full = (1 << (1 << len(vs))) - 1
    return reduce_bf(vs, fn(expand(a, vs), expand(b, vs)) & full)


def b_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    return op2(lambda x, y: x & y, a, b)


def b_or(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0 or a == b:
        return a
    return op2(lambda x, y: x | y, a, b)


def b_xor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return 0
    return op2(lambda x, y: x ^ y, a, b)


def b_not(a):
    if a in (0, 1):
        return 1 - a
    return (a[0], a[1] ^ ((1 << (1 << len(a[0]))) - 1))


def b_ite(c, a, b):
    if a == b:
        return a
    return b_or(b_and(c, a), b_and(b_not(c), b))


def b_sub(f, m):
    """substitute variables of f"""
    if f in (0, 1):
        return f
    if not any(v in m for v in f[0]):
        return f
    if len(f[0]) == 1:
        x = m[f[0][0]]
        return x if f[1] == 2 else b_not(x)
    r = 0
    n = len(f[0])
    for i in range(1 << n):
        if (f[1] >> i) & 1:
            t = 1
            for k, v in enumerate(f[0]):
                x = m.get(v, lit(v))
                t = b_and(t, x if (i >> k) & 1 else b_not(x))
            r = b_or(r, t)
    return r


def b_eval(f, a):
    if f in (0, 1):
        return f
    i = 0
    for k, v in enumerate(f[0]):
        i |= a.get(v, 0) << k
    return (f[1] >> i) & 1


# ---- values: int | ("bv", bits) | ("p", obj, off) | ("any", frozenset, neg) | ("sum", const, ((bf, coef), ...)) | ("agg", [...])
def bv(bits):
    if all(b in (0, 1) for b in bits):
        return sum(b << i for i, b in enumerate(bits))
    n = len(bits)
    while bits[n - 1] == 0:
        n -= 1
    return ("bv", tuple(bits[:n]))


def mksum(c, terms):
    d = {}
    for f, k in terms:
        if f == 1:
            c += k
        elif f != 0:
            d[f] = d.get(f, 0) + k
    t = tuple(sorted(((f, k) for f, k in d.items() if k), key=repr))
    return ("sum", c, t) if t else c


def mkany(s, neg):
    s = frozenset(x for x in s if x != 0)
    if 1 in s:
        return int(not neg)
    if not s:
        return int(neg)
    if len(s) == 1:
        x = next(iter(s))
        return bv((b_not(x) if neg else x,))
    return ("any", s, neg)


_fresh = [0]


def fresh():
    _fresh[0] += 1
    return lit("?%d" % _fresh[0])


def bits_of(v, w):
    if isinstance(v, int):
        return [(v >> i) & 1 for i in range(w)]
    if v[0] == "bv":
        b = list(v[1])
        return (b + [0] * w)[:w]
    if v[0] == "any":
        if w == 1 and len(v[1]) <= MAXV:
            r = 0
            for x in v[1]:
                r = b_or(r, x)
            return [b_not(r) if v[2] else r]
        raise Undec("bits of a disjunction")
    if v[0] == "sum":
        acc = [(v[1] >> i) & 1 for i in range(w)]
        for f, k in v[2]:
            acc = add(acc, [b_and(f, (k >> i) & 1) for i in range(w)], 0)
        return acc
    raise Undec("bits of %s" % v[0])


def add(a, b, c):
    out = []
    for x, y in zip(a, b):
        t = b_xor(x, y)
        out.append(b_xor(t, c))
        c = b_or(b_and(x, y), b_and(c, t))
    return out


def v_sub(v, m):
    if isinstance(v, int) or v is None:
        return v
    if v[0] == "bv":
        return bv([b_sub(b, m) for b in v[1]])
    if v[0] == "any":
        return mkany([b_sub(b, m) for b in v[1]], v[2])
    if v[0] == "sum":
        return mksum(v[1], [(b_sub(f, m), k) for f, k in v[2]])
    if v[0] == "agg":
        return ("agg", [v_sub(x, m) for x in v[1]])
    return v


def v_eval(v, a):
    if isinstance(v, int) or v is None:
        return v
    if v[0] == "bv":
        return sum(b_eval(b, a) << i for i, b in enumerate(v[1]))
    if v[0] == "any":
        return int(any(b_eval(b, a) for b in v[1]) != v[2])
    if v[0] == "sum":
        return v[1] + sum(k * b_eval(f, a) for f, k in v[2])
    return v


def v_vars(v, out):
    if isinstance(v, tuple):
        if v[0] == "bv":
            for b in v[1]:
                if b not in (0, 1):
                    out.update(b[0])
        elif v[0] == "any":
            for b in v[1]:
                out.update(b[0])
        elif v[0] == "sum":
            for f, _ in v[2]:
                out.update(f[0])


class Path:
    def __init__(self):
        self.mem = {}
        self.env = {}
        self.sub = {}
        self.clauses = []
        self.where = None
        self.hist = ()
        self.iters = {}

    def copy(self):
        p = Path()
        p.mem = {k: list(v) for k, v in self.mem.items()}
        p.env = dict(self.env)
        p.sub = dict(self.sub)
        p.clauses = list(self.clauses)
        p.where = self.where
        p.hist = self.hist
        p.iters = dict(self.iters)
        return p

    def subst(self, m):
        for k, x in self.sub.items():
            self.sub[k] = b_sub(x, m)
        self.sub.update(m)
        for o, bs in self.mem.items():
            self.mem[o] = [b_sub(b, m) for b in bs]
        for k, v in self.env.items():
            self.env[k] = v_sub(v, m)
        cl, self.clauses = self.clauses, []
        for c in cl:
            self.clause([b_sub(b, m) for b in c])

    def clause(self, s):
        v = mkany(s, False)
        if v == 0:
            raise Stop()
        if v == 1:
            return
        if v[0] == "bv":
            self.assume_bit(v[1][0], 1)
        else:
            self.clauses.append(v[1])

    def assume_bit(self, f, val):
        if f in (0, 1):
            if f != val:
                raise Stop()
            return
        if not val:
            f = b_not(f)
        rows = [i for i in range(1 << len(f[0])) if (f[1] >> i) & 1]
        if len(rows) == 1:
            self.subst({v: (rows[0] >> k) & 1 for k, v in enumerate(f[0])})
        elif len(f[0]) == 2 and f[1] in (6, 9):
            y = lit(f[0][1])
            self.subst({f[0][0]: b_not(y) if f[1] == 6 else y})
        else:
            self.clauses.append(frozenset([f]))

    def assume(self, c, val):
        if isinstance(c, int):
            if bool(c) != bool(val):
                raise Stop()
        elif c[0] == "bv":
            self.assume_bit(c[1][0], int(val))
        elif c[0] == "any":
            if bool(val) != c[2]:
                self.clause(c[1])
            else:
                for f in c[1]:
                    self.assume_bit(b_sub(f, self.sub), 0)
        else:
            raise Undec("branch on " + c[0])

    def known(self, c):
        """0/1 when the path facts settle the condition, else None"""
        if isinstance(c, int):
            return c & 1
        if c[0] == "bv":
            f = c[1][0]
            if f in (0, 1):
                return f
            if frozenset([f]) in self.clauses:
                return 1
            if frozenset([b_not(f)]) in self.clauses:
                return 0
        if c[0] == "any":
            for k in self.clauses:
                if k <= c[1]:
                    return int(not c[2])
        return None


def valuations(vs, seed=1):
    vs = sorted(vs)
    yield {}
    yield {v: 1 for v in vs}
    for v in vs:
        yield {v: 1}
    for v in vs:
        yield {x: int(x != v) for x in vs}
    r = random.Random(seed)
    for _ in range(300):
        yield {x: r.getrandbits(1) for x in vs}


class Analysis:
    def __init__(self, m, limit=600000):
        self.m = m
        self.T = m.types
        self.limit = limit
        self.steps = 0
        self.reports = []
        self.finals = []
        self.joins = 0
        self.instrs = set()
        self.snap = None
        self.forks = 0

    def report(self, rule, msg, where):
        self.reports.append((rule, msg, where))

    def where(self, ins):
        l = self.m.loc(ins.dbg) if ins is not None and ins.dbg else []
        for f, line, fn in l:
            if f and "ttl/" in f:
                return "%s:%d (%s)" % (f[f.index("ttl/"):], line, fn)
        return "%s:%s" % (l[0][0], l[0][1]) if l else "?"

    def order(self, f):
        """position of every block: enclosing loop heads (outermost first) and rank, loop bodies before loop exits"""
        r = getattr(f, "rank", None)
        if r is not None:
            return r
        ir.analyse_cfg(f)
        depth = {b: [h for h in f.heads if b in f.loops[h]] for b in f.order}
        for b in f.order:
            depth[b].sort(key=lambda h: -len(f.loops[h]))
        post, seen = [], set()

        def dfs(b):
            stack = [(b, None)]
            while stack:
                x, it = stack.pop()
                if it is None:
                    if x in seen:
                        continue
                    seen.add(x)
                    # successors leaving more loops are visited first, so they rank last
                    it = iter(sorted(f.succ[x], key=lambda y: len(depth[y])))
                for y in it:
                    if y not in seen:
                        stack.append((x, it))
                        stack.append((y, None))
                        break
                else:
                    post.append(x)
        dfs(f.order[0])
        rank = {b: i for i, b in enumerate(reversed(post))}
        f.rank = (rank, depth)
        return f.rank

    def key(self, f, p, blk):
        rank, depth = self.order(f)
        out = []
        for h in depth[blk]:
            out += [rank[h], p.iters.get(h, 0)]
        return tuple(out + [rank[blk]])

    # ---- values
    def val(self, p, v, t):
        k = v[0]
        if k == "var":
            return p.env[v[1]]
        if k == "int":
            w = t[1] if t[0] == "i" else 64
            return v[1] & ((1 << w) - 1)
        if k == "null":
            return ("p", None, 0)
        if k == "zero":
            return 0
        if k == "undef":
            if t[0] == "i":
                return bv([fresh() for _ in range(t[1])])
            return ("agg", [None, None, None, None]) if t[0] == "struct" else ("p", None, 0)
        if k == "glob":
            self.globobj(p, v[1])
            return ("p", "@" + v[1], 0)
        if k == "gep":
            b = self.val(p, v[2], ("ptr",))
            idx = [(("i", 64), x) for x in v[3]]
            return self.gep(p, v[1], b, idx)
        raise Undec("operand " + k)

    def globobj(self, p, n):
        if "@" + n in p.mem:
            return
        g = self.m.globals.get(n)
        if not g or g[1] is None or g[0] == "alias":
            raise Undec("global " + n)
        size = self.T.size(g[0])
        if g[1][0] == "int":
            p.mem["@" + n] = [(g[1][1] >> i) & 1 for i in range(size * 8)]
        elif g[1][0] == "zero":
            p.mem["@" + n] = [0] * (size * 8)
        else:
            raise Undec("global " + n)

    def gep(self, p, t, b, idx):
        if b[0] != "p":
            raise Undec("address of a word")
        off = b[2]
        first = True
        for it, iv in idx:
            i = self.val(p, iv, it)
            if not isinstance(i, int):
                raise Undec("symbolic index")
            w = it[1]
            if i >> (w - 1):
                i -= 1 << w
            if first:
                off += i * self.T.size(t)
                first = False
            else:
                o, t = self.T.field(t, i)
                off += o
        return ("p", b[1], off)

    def access(self, p, ptr, n, ins, what):
        if ptr[0] != "p" or ptr[1] is None:
            self.report("wild-access", "%s through a null or invalid pointer" % what, self.where(ins))
            raise Stop()
        o = p.mem[ptr[1]]
        if ptr[2] < 0 or (ptr[2] + n) * 8 > len(o):
            self.report("wild-access", "%s of %d bytes at offset %d of %s (%d bytes)" % (
                what, n, ptr[2], ptr[1], len(o) // 8), self.where(ins))
            raise Stop()
        return o

    def binop(self, op, t, a, b, w):
        full = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op in ("shl", "lshr", "ashr"):
                if b >= w:
                    return bv([fresh() for _ in range(w)])
                return {"shl": (a << b) & full, "lshr": a >> b, "ashr": (sa >> b) & full}[op]
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    raise Undec("division by zero")
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                return (q if op == "sdiv" else sa - q * sb) & full
            return {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b}[op] & full
        if op in ("and", "or", "xor") and w == 1:
            r = self.bool_op(op, a, b)
            if r is not None:
                return r
        if op in ("and", "or", "xor"):
            f = {"and": b_and, "or": b_or, "xor": b_xor}[op]
            return bv([f(x, y) for x, y in zip(bits_of(a, w), bits_of(b, w))])
        if op in ("shl", "lshr", "ashr"):
            if not isinstance(b, int):
                raise Undec("symbolic shift amount")
            if b >= w:
                return bv([fresh() for _ in range(w)])
            x = bits_of(a, w)
            if op == "shl":
                return bv(([0] * b + x)[:w])
            return bv(x[b:] + [0 if op == "lshr" else x[-1]] * b)
        if op in ("add", "sub"):
            if op == "sub" and isinstance(a, int) and a == 0:
                pass
            elif self.small(a, w) and self.small(b, w):
                s = 1 if op == "add" else -1
                ca, ta = self.parts(a)
                cb, tb = self.parts(b)
                r = mksum(ca + s * cb, ta + tuple((f, s * k) for f, k in tb))
                lo, hi = self.bounds(r)
                if lo >= 0 and hi <= full:
                    return r
            x, y = bits_of(a, w), bits_of(b, w)
            if op == "sub":
                return bv(add(x, [b_not(v) for v in y], 1))
            return bv(add(x, y, 0))
        if op == "mul":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                x = bits_of(a, w)
                acc = [0] * w
                for i in range(w):
                    if (b >> i) & 1:
                        acc = add(acc, ([0] * i + x)[:w], 0)
                return bv(acc)
        if op in ("udiv", "urem") and isinstance(b, int) and b and b & (b - 1) == 0:
            k = b.bit_length() - 1
            x = bits_of(a, w)
            return bv(x[k:] + [0] * k) if op == "udiv" else bv(x[:k] + [0] * (w - k))
        raise Undec("%s of words" % op)

    def small(self, v, w):
        if isinstance(v, int):
            return True
        if v[0] == "sum":
            return True
        return v[0] == "bv" and sum(b != 0 for b in v[1]) <= 1

    def parts(self, v):
        if isinstance(v, int):
            return v, ()
        if v[0] == "sum":
            return v[1], v[2]
        for i, b in enumerate(v[1]):
            if b != 0:
                return 0, ((b, 1 << i),)
        return 0, ()

    def bounds(self, v):
        if isinstance(v, int):
            return v, v
        return v[1] + sum(min(0, k) for _, k in v[2]), v[1] + sum(max(0, k) for _, k in v[2])

    def bool_op(self, op, a, b):
        def asany(v):
            if isinstance(v, int):
                return None
            if v[0] == "any":
                return v
            if v[0] == "bv":
                return ("any", frozenset([v[1][0]]), False)
            return None
        if op == "xor":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int):
                    if x == 0:
                        return y
                    if y[0] == "any":
                        return ("any", y[1], not y[2])
            return None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int):
                if op == "and":
                    return y if x else 0
                return 1 if x else y
        if a[0] == "bv" and b[0] == "bv":
            if op == "or":
                return mkany([a[1][0], b[1][0]], False)
            return mkany([b_not(a[1][0]), b_not(b[1][0])], True)
        neg = op == "and"
        xs = []
        for v in (a, b):
            if v[0] == "bv":
                xs.append(b_not(v[1][0]) if neg else v[1][0])
            elif v[0] == "any" and v[2] == neg:
                xs += v[1]
            else:
                raise Fork(a)
        return mkany(xs, neg)

    def icmp(self, pr, t, a, b, p=None):
        if t[0] == "ptr":
            same = a == b
            if pr == "eq":
                return int(same)
            if pr == "ne":
                return int(not same)
            if a[1] == b[1]:
                return int({"ult": a[2] < b[2], "ule": a[2] <= b[2], "ugt": a[2] > b[2], "uge": a[2] >= b[2]}[pr])
            raise Undec("order of pointers into different objects")
        w = t[1]
        if isinstance(a, int) and isinstance(b, int):
            if pr[0] == "s":
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[
                pr if pr in ("eq", "ne") else pr[1:]])
        if pr in ("eq", "ne"):
            if a[0] == "any" if isinstance(a, tuple) else False:
                if isinstance(b, int) and b in (0, 1):
                    return a if (b == 1) == (pr == "eq") else ("any", a[1], not a[2])
            if isinstance(a, tuple) and a[0] == "sum" or isinstance(b, tuple) and b[0] == "sum":
                ca, ta = self.parts(a) if self.small(a, w) else (None, None)
                cb, tb = self.parts(b) if self.small(b, w) else (None, None)
                if ta is not None and tb is not None:
                    d = mksum(ca - cb, ta + tuple((f, -k) for f, k in tb))
                    lo, hi = self.bounds(d)
                    if lo > 0 or hi < 0:
                        return int(pr == "ne")
                    if isinstance(d, int):
                        return int((d == 0) == (pr == "eq"))
                    if d[1] == 0 and (all(k > 0 for _, k in d[2]) or all(k < 0 for _, k in d[2])):
                        return mkany([f for f, _ in d[2]], pr == "eq")
                    # every term needed
                    if d[1] + sum(k for _, k in d[2]) == 0 and (all(k > 0 for _, k in d[2]) or all(k < 0 for _, k in d[2])):
                        return mkany([b_not(f) for f, _ in d[2]], pr == "eq")
            return mkany([b_xor(x, y) for x, y in zip(bits_of(a, w), bits_of(b, w))], pr == "eq")
        # comparisons with a bound
        la, ha = self.range(a, w)
        lb, hb = self.range(b, w)
        if pr in ("ult", "ule", "ugt", "uge"):
            if pr[1] == "g":
                return self.icmp({"ugt": "ult", "uge": "ule"}[pr], t, b, a)
            if pr == "ult":
                if ha < lb:
                    return 1
                if la >= hb:
                    return 0
                if isinstance(a, int) and a == 0:
                    return mkany(bits_of(b, w), False)
                if isinstance(b, int) and b & (b - 1) == 0:
                    return mkany(bits_of(a, w)[b.bit_length() - 1:], True)
            else:
                if ha <= lb:
                    return 1
                if la > hb:
                    return 0
                if isinstance(b, int) and b == 0:
                    return mkany(bits_of(a, w), True)
        if pr in ("slt", "sge") and isinstance(b, int) and b == 0:
            f = bits_of(a, w)[-1]
            return bv((f if pr == "slt" else b_not(f),))
        if pr in ("sgt", "sle") and isinstance(b, int) and b == (1 << w) - 1:
            f = bits_of(a, w)[-1]
            return bv((b_not(f) if pr == "sgt" else f,))
        raise Undec("order of words")

    def range(self, v, w):
        if isinstance(v, int):
            return v, v
        if v[0] == "sum":
            return self.bounds(v)
        if v[0] == "any":
            return 0, 1
        return sum(1 << i for i, b in enumerate(v[1]) if b == 1), sum(1 << i for i, b in enumerate(v[1]) if b != 0)

    def load(self, p, t, ptr, ins):
        n = self.T.size(t)
        o = self.access(p, ptr, n, ins, "read")
        if t[0] == "ptr":
            x = o[ptr[2] * 8]
            if isinstance(x, tuple) and x[0] == "ptrv":
                return x[1]
            raise Undec("pointer read from words")
        bs = o[ptr[2] * 8:(ptr[2] + n) * 8]
        if any(isinstance(b, tuple) and b[0] in ("ptrv", "pad") for b in bs):
            raise Undec("word read from pointers")
        return bv(bs[:t[1]])

    def store(self, p, t, v, ptr, ins):
        n = self.T.size(t)
        o = self.access(p, ptr, n, ins, "write")
        if t[0] == "ptr":
            o[ptr[2] * 8:(ptr[2] + n) * 8] = [("ptrv", v)] + [("pad",)] * (n * 8 - 1)
        else:
            o[ptr[2] * 8:(ptr[2] + n) * 8] = bits_of(v, n * 8) if not (isinstance(v, tuple) and v[0] == "any") else \
                bits_of(v, 1) + [0] * (n * 8 - 1)

    def call(self, p, f, ins):
        t, callee, args = ins.a
        name = callee[1] if callee[0] == "glob" else "?"
        if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or name.startswith("llvm.assume") or \
                name.startswith("llvm.experimental.noalias"):
            return
        av = [self.val(p, v, at) if v[0] != "meta" else None for at, v in args]
        if name.startswith("llvm.ctpop."):
            w = int(name.rsplit(".i", 1)[1])
            p.env[ins.res] = mksum(0, tuple((b, 1) for b in bits_of(av[0], w)))
            return
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            n = av[2]
            if not isinstance(n, int):
                raise Undec("symbolic copy length")
            if n:
                s = self.access(p, av[1], n, ins, "read")[av[1][2] * 8:(av[1][2] + n) * 8]
                self.access(p, av[0], n, ins, "write")[av[0][2] * 8:(av[0][2] + n) * 8] = s
            return
        if name.startswith("llvm.memset"):
            n = av[2]
            if not isinstance(n, int):
                raise Undec("symbolic fill length")
            if n:
                self.access(p, av[0], n, ins, "write")[av[0][2] * 8:(av[0][2] + n) * 8] = bits_of(av[1], 8) * n
            return
        for pre, o in (("llvm.umin.", "ult"), ("llvm.umax.", "ugt"), ("llvm.smin.", "slt"), ("llvm.smax.", "sgt")):
            if name.startswith(pre):
                c = self.icmp(o, args[0][0], av[0], av[1])
                if not isinstance(c, int):
                    raise Fork(c)
                p.env[ins.res] = av[0] if c else av[1]
                return
        if name in self.m.funcs:
            raise Undec("call of " + name)
        self.report("external", "calls %s" % name, self.where(ins))
        raise Stop()

    def step(self, p, f, ins):
        a = ins.a
        op = ins.op
        if op in ir.BINOPS:
            p.env[ins.res] = self.binop(op, a[0], self.val(p, a[1], a[0]), self.val(p, a[2], a[0]), a[0][1])
        elif op == "icmp":
            p.env[ins.res] = self.icmp(a[0], a[1], self.val(p, a[2], a[1]), self.val(p, a[3], a[1]))
        elif op == "cast":
            k, t, v, t2 = a
            x = self.val(p, v, t)
            if k == "zext":
                p.env[ins.res] = x
            elif k == "trunc":
                w = t2[1]
                if isinstance(x, int):
                    x &= (1 << w) - 1
                elif x[0] == "any" or x[0] == "sum" and self.bounds(x)[0] >= 0 and self.bounds(x)[1] < 1 << w:
                    pass
                else:
                    x = bv(bits_of(x, w))
                p.env[ins.res] = x
            elif k == "sext":
                w, w2 = t[1], t2[1]
                if isinstance(x, tuple) and x[0] == "sum" and self.bounds(x)[1] < 1 << (w - 1):
                    p.env[ins.res] = x
                else:
                    b = bits_of(x, w)
                    p.env[ins.res] = bv(b + [b[-1]] * (w2 - w))
            elif k == "bitcast":
                p.env[ins.res] = x
            else:
                raise Undec(k)
        elif op == "freeze":
            p.env[ins.res] = self.val(p, a[1], a[0])
        elif op == "select":
            c = self.val(p, a[0], ("i", 1))
            k = p.known(c)
            x, y = self.val(p, a[2], a[1]), self.val(p, a[3], a[1])
            if k is not None:
                p.env[ins.res] = x if k else y
            elif a[1] == ("i", 1) and x == 1:
                p.env[ins.res] = self.bool_op("or", c, y)
            elif a[1] == ("i", 1) and y == 0:
                p.env[ins.res] = self.bool_op("and", c, x)
            elif c[0] == "bv":
                r = self.merge_val(c[1][0], x, y, a[1])
                if r is None:
                    raise Fork(c)
                p.env[ins.res] = r
            else:
                raise Fork(c)
        elif op == "getelementptr":
            p.env[ins.res] = self.gep(p, a[0], self.val(p, a[1], ("ptr",)), a[2])
        elif op == "load":
            p.env[ins.res] = self.load(p, a[0], self.val(p, a[1], ("ptr",)), ins)
        elif op == "store":
            self.store(p, a[0], self.val(p, a[1], a[0]), self.val(p, a[2], ("ptr",)), ins)
        elif op == "alloca":
            o = "#%s" % ins.res
            p.mem[o] = [fresh() for _ in range(self.T.size(a[0]) * 8)]
            p.env[ins.res] = ("p", o, 0)
        elif op == "call":
            self.call(p, f, ins)
        elif op == "extractvalue":
            v = self.val(p, a[1], a[0])
            for i in a[2]:
                v = v[1][i]
            p.env[ins.res] = v
        elif op == "insertvalue":
            v = self.val(p, a[1], a[0])
            v = ("agg", list(v[1]))
            v[1][a[4][0]] = self.val(p, a[3], a[2])
            p.env[ins.res] = v
        else:
            raise Undec("instruction " + op)

    def merge_val(self, c, x, y, t=None):
        """value that is x where bit c holds and y elsewhere; None if it cannot be expressed"""
        if x == y:
            return x
        if isinstance(x, tuple) and x[0] in ("p", "agg") or isinstance(y, tuple) and y[0] in ("p", "agg"):
            return None
        try:
            isum = lambda v: isinstance(v, int) or v[0] == "sum"
            if isum(x) and isum(y):
                (cx, tx), (cy, ty) = self.parts(x), self.parts(y)
                if tx == ty:
                    return mksum(cy, ty + ((c, cx - cy),))
            if (isinstance(x, int) or x[0] == "bv") and (isinstance(y, int) or y[0] == "bv"):
                w = max(len(v[1]) if isinstance(v, tuple) else v.bit_length() for v in (x, y))
                return bv([b_ite(c, i, j) for i, j in zip(bits_of(x, w), bits_of(y, w))])
        except Undec:
            pass
        return None

    def merge(self, p, q, f, blk):
        """gated join of two sides of one branch at blk (phis evaluated); None if they cannot be joined"""
        if not p.hist or not q.hist or p.hist[:-1] != q.hist[:-1]:
            return None
        (i, pv, c, sub, clauses), (j, qv, _, _, _) = p.hist[-1], q.hist[-1]
        if i != j or pv == qv or c is None:
            return None
        if not pv:
            p, q = q, p
        r = Path()
        r.sub, r.clauses, r.hist, r.iters, r.where = dict(sub), list(clauses), p.hist[:-1], dict(p.iters), p.where
        live = f.live_in[blk] | set(f.phis[blk])
        for k in live:
            if k in p.env and k in q.env:
                v = self.merge_val(c, p.env[k], q.env[k])
                if v is None:
                    return None
                r.env[k] = v
        for o in p.mem:
            if o not in q.mem:
                continue
            a, b = p.mem[o], q.mem[o]
            if a == b:
                r.mem[o] = list(a)
                continue
            try:
                r.mem[o] = [x if x == y else b_ite(c, x, y) for x, y in zip(a, b)]
            except (Undec, TypeError, IndexError):
                return None
        self.joins += 1
        return r

    def split(self, p, c):
        """the feasible sides of a condition"""
        self.forks += 1
        out = []
        for v in (1, 0):
            q = p.copy()
            try:
                q.assume(c, v)
            except Stop:
                continue
            out.append((v, q))
        if len(out) == 2:
            bit = c[1][0] if c[0] == "bv" else None
            sub, cl = dict(p.sub), list(p.clauses)
            for v, q in out:
                q.hist = p.hist + ((self.forks, v, bit, sub, cl),)
        return out

    def enter(self, p, f, blk, pred):
        phis = []
        for ins in f.blocks[blk]:
            if ins.op != "phi":
                break
            for v, l in ins.a[1]:
                if l == pred:
                    phis.append((ins.res, self.val(p, v, ins.a[0])))
                    break
        for k, v in phis:
            p.env[k] = v
        if blk in f.heads:
            p.iters[blk] = p.iters.get(blk, 0) + 1 if pred in f.loops[blk] else 0
        if blk in f.heads and self.steps > self.limit:
            s = (blk, {k: p.env.get(k) for k in f.live_in[blk] | set(f.phis[blk])}, {o: list(b) for o, b in p.mem.items()},
                 tuple(h[:2] for h in p.hist))
            if self.snap is not None and self.snap[0] == blk:
                if self.snap == s:
                    ins = f.blocks[blk][-1]
                    self.report("no-progress", "the loop repeats the same state", self.where(ins))
                    raise Stop()
                if self.steps > self.limit * 1.2:
                    raise Undec("loop bound")
                self.snap = s
            elif self.snap is None or self.steps > self.limit * 1.1:
                self.snap = s

    def drive(self, p, f):
        """analyse from the entry, always advancing the path that is furthest behind, joining siblings that meet"""
        heap = []
        seq = 0
        heapq.heappush(heap, (self.key(f, p, f.order[0]), 0, 0, p, f.order[0], 0))
        while heap:
            k, _, _, p, blk, ip = heapq.heappop(heap)
            if ip == 0 and p.hist:
                same = [p]
                while heap and heap[0][0] == k and heap[0][4] == blk and heap[0][5] == 0:
                    same.append(heapq.heappop(heap)[3])
                again = len(same) > 1
                while again:
                    again = False
                    for x in range(len(same)):
                        for y in range(x + 1, len(same)):
                            r = self.merge(same[x], same[y], f, blk)
                            if r is not None:
                                del same[y]
                                same[x] = r
                                again = True
                                break
                        if again:
                            break
                p = same[0]
                for q in same[1:]:
                    seq += 1
                    heapq.heappush(heap, (k, 1, seq, q, blk, -1))
            for q, b2, ip2 in self.block(p, f, blk, max(ip, 0)):
                seq += 1
                heapq.heappush(heap, (self.key(f, q, b2), 0 if ip2 == 0 else 1, seq, q, b2, ip2))
            if len(heap) > 400:
                raise Undec("too many paths")

    def block(self, p, f, blk, ip):
        """run one block; the (path, block, instruction) triples to continue with"""
        code = f.blocks[blk]
        out = []

        def go(q, nxt):
            try:
                self.enter(q, f, nxt, blk)
                out.append((q, nxt, 0))
            except Stop:
                pass
        for ip in range(ip, len(code)):
            ins = code[ip]
            if ins.op == "phi":
                continue
            self.steps += 1
            if self.steps > self.limit * 2:
                raise Undec("step bound")
            self.instrs.add((f.name, blk, ip))
            op = ins.op
            if op == "br":
                go(p, ins.a[0])
                return out
            if op == "condbr":
                c = self.val(p, ins.a[0], ("i", 1))
                k = p.known(c)
                if k is not None:
                    go(p, ins.a[1] if k else ins.a[2])
                else:
                    for v, q in self.split(p, c):
                        go(q, ins.a[1] if v else ins.a[2])
                return out
            if op == "switch":
                c = self.val(p, ins.a[1], ins.a[0])
                if not isinstance(c, int):
                    raise Undec("switch on a symbolic word")
                w = ins.a[0][1]
                nxt = ins.a[2]
                for v, l in ins.a[3]:
                    if v & ((1 << w) - 1) == c:
                        nxt = l
                go(p, nxt)
                return out
            if op == "ret":
                self.finals.append((p, self.val(p, ins.a[1], ins.a[0]) if ins.a[1] is not None else None))
                return out
            if op == "unreachable":
                self.report("unreachable", "control reaches an unreachable point", self.where(ins))
                return out
            try:
                p.where = ins
                self.step(p, f, ins)
            except Fork as fk:
                return [(q, blk, ip) for _, q in self.split(p, fk.cond)]
            except Stop:
                return out
        raise Undec("block without terminator")

    def run(self, fn, args, objs):
        f = self.m.funcs.get(fn)
        if f is None:
            raise KeyError("%s is not in the analysed unit" % fn)
        ir.analyse_cfg(f)
        p = Path()
        p.mem = {o: list(b) for o, b in objs.items()}
        for name, v in zip(f.params, args):
            p.env[name] = v
        self.drive(p, f)


def differs(p, got, want):
    """None: equal on the path; a valuation of the initial bits exhibiting the difference; or "?" if neither is shown"""
    got, want = v_sub(got, p.sub), v_sub(want, p.sub)
    if isinstance(got, tuple) and got[0] == "any" and p.known(got) is not None:
        got = p.known(got)
    if isinstance(want, tuple) and want[0] == "any" and p.known(want) is not None:
        want = p.known(want)
    if got == want:
        return None
    vs = set()
    v_vars(got, vs)
    v_vars(want, vs)
    for c in p.clauses:
        for b in c:
            vs.update(b[0])
    for a in valuations(vs):
        if all(any(b_eval(b, a) for b in c) for c in p.clauses) and v_eval(got, a) != v_eval(want, a):
            return a
    return "?"
