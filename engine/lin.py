"""Affine expressions over integer symbols and a small linear-inequality domain.

Lin is an immutable affine expression  c + sum(k_i * sym_i).
A constraint is a Lin read as  Lin >= 0.
Infeasibility is decided by Fourier-Motzkin elimination with integer tightening
(rational reasoning: may answer "feasible" for an infeasible integer system, never the reverse).
"""
from fractions import Fraction
from math import gcd


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def is_const(self):
        return not self.t

    def syms(self):
        return [s for s, _ in self.t]

    def coef(self, s):
        for x, k in self.t:
            if x == s:
                return k
        return 0

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v == 0:
                d.pop(s, None)
            else:
                d[s] = v
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if isinstance(k, Lin):
            if k.is_const():
                k = k.c
            elif self.is_const():
                return k * self.c
            else:
                return None
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((s, a * k) for s, a in self.t))

    __rmul__ = __mul__

    def divexact(self, k):
        """self / k if every coefficient is divisible, else None."""
        if self.c % k:
            return None
        for _, a in self.t:
            if a % k:
                return None
        return Lin(self.c // k, tuple((s, a // k) for s, a in self.t))

    def subst(self, m):
        """substitute symbols by Lins (m: dict sym -> Lin)."""
        hit = False
        for s, _ in self.t:
            if s in m:
                hit = True
                break
        if not hit:
            return self
        r = Lin(self.c, tuple((s, k) for s, k in self.t if s not in m))
        for s, k in self.t:
            if s in m:
                r = r + m[s] * k
        return r

    def __repr__(self):
        if not self.t:
            return str(self.c)
        out = ""
        for s, k in self.t:
            if k == 1:
                out += "+" + s
            elif k == -1:
                out += "-" + s
            else:
                out += ("+" if k > 0 else "") + str(k) + s
        if self.c:
            out += ("+" if self.c > 0 else "") + str(self.c)
        return out[1:] if out[0] == "+" else out


ZERO = Lin(0)
ONE = Lin(1)


def const(c):
    return Lin(c)


def sym(s):
    return Lin(0, ((s, 1),))


def norm_ineq(l):
    """normalise constraint l>=0 over the integers. None if trivially true; False if trivially false."""
    if not l.t:
        return None if l.c >= 0 else False
    fr = any(isinstance(k, Fraction) and k.denominator != 1 for _, k in l.t) or (
        isinstance(l.c, Fraction) and l.c.denominator != 1)
    if fr:
        m = 1
        for _, k in l.t:
            if isinstance(k, Fraction):
                m = m * k.denominator // gcd(m, k.denominator)
        l = Lin(l.c * m, tuple((s, int(k * m)) for s, k in l.t))
    g = 0
    for _, k in l.t:
        g = gcd(g, int(k))
    if g > 1:
        c = l.c
        c = c // g if not isinstance(c, Fraction) else (c / g).__floor__()
        return Lin(c, tuple((s, int(k) // g) for s, k in l.t))
    if isinstance(l.c, Fraction):
        return Lin(l.c.__floor__(), l.t)
    return l


_cache = {}
LIMIT = 160


def infeasible(cons):
    key = frozenset(cons)
    r = _cache.get(key)
    if r is None:
        r = _infeasible(key)
        if len(_cache) > 400000:
            _cache.clear()
        _cache[key] = r
    return r


def _infeasible(cons):
    cur = {}
    for l in cons:
        l = norm_ineq(l)
        if l is None:
            continue
        if l is False:
            return True
        o = cur.get(l.t)
        if o is None or l.c < o:
            cur[l.t] = l.c
    while cur:
        # quick contradictory pair test, and pick variable
        occ = {}
        for t in cur:
            for s, k in t:
                p = occ.setdefault(s, [0, 0])
                p[0 if k > 0 else 1] += 1
        best = None
        for s, (a, b) in occ.items():
            cost = a * b - a - b
            if best is None or cost < best[0] or (cost == best[0] and s < best[1]):
                best = (cost, s)
        v = best[1]
        pos, neg, rest = [], [], {}
        for t, c in cur.items():
            k = 0
            for s, kk in t:
                if s == v:
                    k = kk
                    break
            if k > 0:
                pos.append((t, c, k))
            elif k < 0:
                neg.append((t, c, -k))
            else:
                rest[t] = c
        for (tp, cp, kp) in pos:
            for (tn, cn, kn) in neg:
                g = gcd(kp, kn)
                a, b = kn // g, kp // g
                d = {}
                for s, k in tp:
                    d[s] = k * a
                for s, k in tn:
                    x = d.get(s, 0) + k * b
                    if x == 0:
                        d.pop(s, None)
                    else:
                        d[s] = x
                c = cp * a + cn * b
                if not d:
                    if c < 0:
                        return True
                    continue
                gg = 0
                for k in d.values():
                    gg = gcd(gg, k)
                if gg > 1:
                    d = {s: k // gg for s, k in d.items()}
                    c = c // gg
                t = tuple(sorted(d.items()))
                o = rest.get(t)
                if o is None or c < o:
                    rest[t] = c
        cur = rest
        if len(cur) > LIMIT:
            return farkas(cur)
    return False


def farkas(rows):
    """rational infeasibility of {t.x + c >= 0}: is there lambda >= 0 with sum lambda t = 0 and sum lambda c = -1?
    Phase-1 simplex on the dual, Bland's rule, integer-preserving tableau."""
    cons = list(rows.items())
    syms = sorted({s for t, _ in cons for s, _ in t})
    pos = {s: i for i, s in enumerate(syms)}
    m, n = len(syms) + 1, len(cons)
    # rows: equality constraints; columns: lambdas, then artificials are implicit basis
    T = [[0] * n for _ in range(m)]
    for j, (t, c) in enumerate(cons):
        for s, k in t:
            T[pos[s]][j] = k
        T[m - 1][j] = -c
    b = [0] * (m - 1) + [1]
    # objective: minimise sum of artificials = sum over rows (b - T.lambda)
    basis = [None] * m          # None: artificial
    den = 1
    T = [row + [bb] for row, bb in zip(T, b)]
    obj = [sum(T[i][j] for i in range(m)) for j in range(n + 1)]
    for _ in range(5000):
        if obj[n] == 0:
            return True
        e = None
        inb = set(x for x in basis if x is not None)
        for j in range(n):
            if obj[j] > 0 and j not in inb:
                e = j
                break
        if e is None:
            return False
        l = None
        for i in range(m):
            if T[i][e] > 0:
                if l is None:
                    l = i
                else:
                    x, y = T[i][n] * T[l][e], T[l][n] * T[i][e]
                    if x < y or (x == y and key_(basis[i], i, n) < key_(basis[l], l, n)):
                        l = i
        if l is None:
            return False
        p = T[l][e]
        rl = T[l]
        for i in range(m):
            if i != l:
                k = T[i][e]
                T[i] = [(x * p - k * y) // den for x, y in zip(T[i], rl)]
        k = obj[e]
        obj = [(x * p - k * y) // den for x, y in zip(obj, rl)]
        if basis[l] is None:
            # the leaving artificial never re-enters: its reduced cost is accounted for by the objective row
            obj = [sum(T[i][j] for i in range(m) if basis[i] is None and i != l) for j in range(n + 1)]
        basis[l] = e
        den = p
    return False


def key_(v, i, n):
    return n + i if v is None else v


def relevant(cons, lins):
    """constraints connected (through shared symbols) to the given expressions"""
    seen = set()
    for l in lins:
        for s, _ in l.t:
            seen.add(s)
    todo = list(cons)
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for c in todo:
            for s, _ in c.t:
                if s in seen:
                    out.append(c)
                    for s2, _ in c.t:
                        if s2 not in seen:
                            seen.add(s2)
                    changed = True
                    break
            else:
                rest.append(c)
        todo = rest
    return out


def entails(cons, l):
    """cons |= l >= 0"""
    if not l.t:
        return l.c >= 0
    n = -l - 1
    r = relevant(cons, [n])
    return infeasible(tuple(r) + (n,))


def feasible_with(cons, *ls):
    ls2 = []
    for l in ls:
        if not l.t:
            if l.c < 0:
                return False
        else:
            ls2.append(l)
    if not ls2:
        return True
    r = relevant(cons, ls2)
    return not infeasible(tuple(r) + tuple(ls2))


def project(cons, elim):
    """Fourier-Motzkin projection of cons eliminating symbols in elim (set)."""
    cur = {}
    for l in cons:
        l = norm_ineq(l)
        if l is None or l is False:
            continue
        o = cur.get(l.t)
        if o is None or l.c < o:
            cur[l.t] = l.c
    elim = set(elim)
    while True:
        occ = {}
        for t in cur:
            for s, k in t:
                if s in elim:
                    p = occ.setdefault(s, [0, 0])
                    p[0 if k > 0 else 1] += 1
        if not occ:
            break
        v = min(occ, key=lambda s: (occ[s][0] * occ[s][1], s))
        pos, neg, rest = [], [], {}
        for t, c in cur.items():
            k = dict(t).get(v, 0)
            if k > 0:
                pos.append((t, c, k))
            elif k < 0:
                neg.append((t, c, -k))
            else:
                rest[t] = c
        if len(pos) * len(neg) <= 400:
            for (tp, cp, kp) in pos:
                for (tn, cn, kn) in neg:
                    g = gcd(kp, kn)
                    l = norm_ineq(Lin(cp, tp) * (kn // g) + Lin(cn, tn) * (kp // g))
                    if l is None or l is False:
                        continue
                    o = rest.get(l.t)
                    if o is None or l.c < o:
                        rest[l.t] = l.c
        cur = rest
    return [Lin(c, t) for t, c in cur.items()]


_wit = {}


def witness(cons):
    """True if some integer point satisfies the constraints (searched: bounded branch and bound on the rational
    projection), False if none was found."""
    key = frozenset(l for l in cons if l.t)
    r = _wit.get(key)
    if r is None:
        if any(not l.t and l.c < 0 for l in cons):
            return False
        r = _wit[key] = _witness(tuple(key), [4000])
    return r


def _witness(cons, budget):
    budget[0] -= 1
    if budget[0] < 0 or infeasible(cons):
        return False
    occ = {}
    for l in cons:
        for s, k in l.t:
            occ[s] = occ.get(s, 0) + 1
    if not occ:
        return True
    # the most constrained symbol first
    v = max(occ, key=lambda s: (occ[s], s))
    lo = hi = None
    comp = relevant(cons, [sym(v)])
    rest = [l for l in cons if l not in comp] if len(comp) < len(cons) else []
    if rest:            # independent components are solved one by one
        return _witness(tuple(comp), budget) and _witness(tuple(rest), budget)
    for l in project(comp, set(occ) - {v}):
        k = l.coef(v)
        if k > 0:
            b = -(l.c // k)
            lo = b if lo is None or b > lo else lo
        elif k < 0:
            b = l.c // -k
            hi = b if hi is None or b < hi else hi
    if lo is None and hi is None:
        vals = (0, 1, -1, 2)
    elif hi is None:
        vals = range(lo, lo + 12)
    elif lo is None:
        vals = range(hi, hi - 12, -1)
    else:
        vals = list(range(lo, min(hi, lo + 12) + 1))
        vals += [x for x in range(hi, max(hi - 12, lo) - 1, -1) if x not in vals]
    for x in vals:
        m = {v: const(x)}
        nxt = []
        for l in cons:
            l = l.subst(m)
            if l.t:
                nxt.append(l)
            elif l.c < 0:
                break
        else:
            if _witness(tuple(nxt), budget):
                return True
        if budget[0] < 0:
            return False
    return False
