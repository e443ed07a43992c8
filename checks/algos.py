"""algorithm.hpp and numeric.hpp on ranges of opaque elements."""
from cases import *
from lists import X, EOPS
import facts as fm

UNIT = "algo.cpp"
NODES = {}
SIZES = {}
SEM = {
    "_ZplRK1ES1_": ("fn", "plus", 0, (1, 2)),
    "_ZppR1E": ("inc", 0),
    "_ZmmR1E": ("inc", 0, "dec"),
    "_ZmiRK1ES1_": ("fn", "minus", 0, (1, 2)),
    "_ZNK2G0clEv": ("gen", 0),
    "_ZNK2U1clERK1E": ("fn", "U1", 0, (2,)),
    "_ZNK2U2clERK1ES2_": ("fn", "U2", 0, (2, 3)),
}
ENGINE = {"geprange": True, "sums": True}
Y = ("t", "y")
NMAX = 5


# ---------------------------------------------------------------- pre-states
def rng(st, S, n):
    """range of n live elements S[0..n); returns (first, last)"""
    A = "arg" + S
    st.arrs[A] = Arr(16, n, True, "E", ((ZERO, n, ("V", S, ZERO)),) if n != ZERO else ())
    st.spec["aw:" + A] = (V(S, 0, n),)
    return aptr(A, ZERO), aptr(A, n * 16)


def aword(st, S, *w):
    st.spec["aw:arg" + S] = tuple(x for x in w if ilen(x) != ZERO)


def length(st, name, lo=0, hi=None):
    n = sym(name)
    assert st.assume_ge(n - lo)
    if hi is not None:
        assert st.assume_ge(hi - n)
    slots(st, n)
    return n


# ---------------------------------------------------------------- posts
def arrays(eng, st):
    """every range holds its specified word; then the generic expectations"""
    work = [st]
    for k in sorted(x for x in st.spec if x.startswith("aw:")):
        A = k[3:]
        nxt = []
        for x in work:
            x = x.copy()
            g = ()
            for lo, hi, ct in x.arrs[A].chunks:
                g += tuple(content_items(A, lo, hi, 1, ct))
            x.spec["~g1"] = g
            ok, bad = words(eng, [x], "~g1", k, "contents", "range '%s' " % A[3:])
            for y in bad:
                yield y
            for y in ok:
                y = y.copy()
                y.spec.pop("~g1", None)
                nxt.append(y)
        work = nxt
    for x in work:
        yield from generic_post(eng, x)


def known2(st, eng, pred, args):
    v = fm.lookup(st, pred, args)
    if v is None and pred == "eq" and len(args) == 2:
        v = fm.lookup(st, pred, (args[1], args[0]))
        if v is None and args[0] == args[1]:
            v = 1
    if v is None and len(args) == 2 and pred in eng.order:
        v = 0 if args[0] == args[1] else fm.order_lookup(st, pred, *args)
    return v


def covers(s, f, args):
    """if range fact f applies to args: its index value there, else None"""
    at = None
    for t, x in zip(f[2], args):
        if t[0] == "V" and x[0] == "V" and t[1] == x[1]:
            if t[2].coef("@"):
                v = x[2] - (t[2] - sym("@"))
                if at is not None and not s.entails_eq(at, v):
                    return None
                at = v
            elif not s.entails_eq(t[2], x[2]):
                return None
        elif t != x:
            return None
    if at is not None and s.entails(at - f[3]) and s.entails(f[4] - 1 - at):
        return at
    return None


def range_known(st, eng, pred, tmpl, lo, hi, val):
    """pred(tmpl(@)) == val for every @ in [lo, hi)"""
    cur = lo
    for _ in range(24):
        s = st.copy()
        if not s.assume_ge(hi - 1 - cur):
            return True
        a = tmpl(cur)
        nxt = None
        for f in s.facts:
            if f[0] != "rf" or f[1] != pred or f[5] != val or len(f[2]) != len(a):
                continue
            for b in (a, tuple(reversed(a))) if pred == "eq" else (a,):
                at = covers(s, f, b)
                if at is not None:
                    nxt = cur + (f[4] - at)
                    break
            if nxt is not None:
                break
        if nxt is None and known2(s, eng, pred, a) == val:
            nxt = cur + 1
        if nxt is None:
            return False
        cur = nxt
    return False


def index_of(p, A):
    """index designated by pointer p in array A, or None"""
    if not (isinstance(p, tuple) and p and p[0] == "p") or p[1] != ("a", A):
        return None
    return p[2].divexact(16)


def truth(r):
    if isinstance(r, Lin) and r.is_const():
        return 1 if r.c else 0
    if isinstance(r, tuple) and r and r[0] == "b":
        return r[1]
    return None


def first_at(eng, st, i, lens, pred, tmpl, hit):
    """findings if i is not the first index of [0, min(lens)) where pred(tmpl(i)) == hit (min(lens) if there is none)"""
    for l in lens:
        if not st.entails(l - i):
            for s, ok in eng.split_ge(st, l - i):
                if not ok:
                    yield s, ("result", "the result lies past the end of the range")
            return
    if not st.entails(i):
        yield st, ("result", "the result lies before the range")
        return
    if not range_known(st, eng, pred, tmpl, ZERO, i, 1 - hit):
        yield st, ("result", "an element before the result was not rejected")
        return
    work = [st]
    for k in range(len(lens)):
        nxt = []
        for s in work:
            ls = s.spec["~lens"]
            for s2, e in eng.split_eq(s, s.spec["~i"] - ls[k]):
                if not e:
                    nxt.append(s2)
        work = nxt
    for s in work:
        if known2(s, eng, pred, tmpl_at(s)) != hit:
            yield s, ("result", "the result is not the end of the range although no element there was accepted")


_tm = [None]


def tmpl_at(s):
    return _tm[0](s.spec["~i"])


def first_post(S, lens, pred, tmpl, hit, add=0, two=None):
    """the returned iterator designates the first index with pred(tmpl(i)) == hit (+add), the end if there is none.
    two: names of the two ranges whose iterators are returned through object r"""
    def post(eng, st):
        _tm[0] = tmpl
        if two:
            i = index_of(obj_field(st, "r", 0), "arg" + two[0])
            j = index_of(obj_field(st, "r", 8), "arg" + two[1])
            if i is None or j is None or not st.entails_eq(i, j):
                yield st, ("result", "the returned iterators are not at the same distance from the beginnings")
                return
        else:
            i = index_of(st.spec["ret"], "arg" + S)
            if i is None:
                yield st, ("result", "the result does not designate a position of the range")
                return
        st = st.copy()
        st.spec["~i"] = i
        st.spec["~lens"] = tuple(st.spec["P"][k] for k in lens)
        bad = False
        if add:                 # positions refer to the second of two neighbours
            n = st.spec["~lens"][0]
            for s, e in eng.split_eq(st, i - n):
                i, n = s.spec["~i"], s.spec["~lens"][0]
                if e:
                    if not range_known(s, eng, pred, tmpl, ZERO, n - 1, 1 - hit):
                        bad = True
                        yield s, ("result", "returns the end although not every pair was rejected")
                elif not s.entails(i - add[0]) or not s.entails(n - 1 - i):
                    bad = True
                    yield s, ("result", "the result lies outside the range")
                elif not range_known(s, eng, pred, tmpl, ZERO, i - add[0], 1 - hit) or \
                        known2(s, eng, pred, tmpl(i - add[0])) != hit:
                    bad = True
                    yield s, ("result", "the result is not the first pair accepted")
        else:
            for x in first_at(eng, st, i, st.spec["~lens"], pred, tmpl, hit):
                bad = True
                yield x
        if not bad:
            s = st.copy()
            s.spec.pop("~i")
            s.spec.pop("~lens")
            yield from arrays(eng, s)
    return post


def every_post(pred, tmpl, hit, none, off=0, same=False):
    """returns `none` if no index of [0, n-off) has pred(tmpl(i)) == hit, else 1-none; same: also requires n == m"""
    def post(eng, st):
        r = truth(st.spec["ret"])
        if r is None:
            eng.undecided.append((eng.entry, eng.label, "return value"))
            return
        n = st.spec["P"][0]
        if r == none:
            if same and not st.entails_eq(n, st.spec["P"][1]):
                yield st, ("result", "reports equality of ranges of different lengths")
                return
            if not range_known(st, eng, pred, tmpl, ZERO, n - off, 1 - hit):
                yield st, ("result", "answers for the whole range without having seen all of it")
                return
        else:
            ok = False
            if same and (st.entails(n - st.spec["P"][1] - 1) or st.entails(st.spec["P"][1] - n - 1)):
                ok = True
            for f in st.facts:
                if ok or f[1] != pred or f[-1] != hit or f[0] != "pf":
                    continue
                for a in (f[2], tuple(reversed(f[2]))) if pred == "eq" else (f[2],):
                    for k in range(len(a)):
                        if a[k][0] != "V":
                            continue
                        z = tmpl(ZERO)[k]
                        if z[0] != "V" or z[1] != a[k][1]:
                            continue
                        i = a[k][2] - z[2]
                        lens = [n - off] + ([st.spec["P"][1]] if same else [])
                        if tmpl(i) == a and st.entails(i) and all(st.entails(l - 1 - i) for l in lens):
                            ok = True
            if not ok:
                yield st, ("result", "reports an element that was not found")
                return
        yield from arrays(eng, st)
    return post


class Ask(Exception):
    pass


def ref_post(fn):
    """expectations computed by the reference fn(ask): ask(pred, *tokens) reads what this path knows about the opaque
    predicate; what the path never asked may be either, and the outcome must be right for both"""
    def post(eng, st):
        work = [(st, ())]
        k = 0
        while work:
            k += 1
            if k > 3000:
                eng.undecided.append((eng.entry, eng.label, "too many predicate completions"))
                return
            s, _ = work.pop()
            need = []

            def ask(pred, *args):
                v = known2(s, eng, pred, args)
                if v is None:
                    need.append((pred, args))
                    raise Ask()
                return v
            try:
                r = fn(ask)
            except Ask:
                pred, args = need[0]
                for b in (0, 1):
                    s2 = s.copy()
                    s2.facts = s2.facts + (("pf", pred, args, b),)
                    if pred in eng.order and fm.order_closure(s2, pred) is None:
                        continue
                    work.append((s2, ()))
                continue
            s = s.copy()
            s.spec.update(r)
            yield from arrays(eng, s)
    return post


# ---------------------------------------------------------------- cases
def tA(i):
    return ("V", "A", i if isinstance(i, Lin) else const(i))


def tB(i):
    return ("V", "B", i if isinstance(i, Lin) else const(i))


def cases():
    out = []

    def add(op, label, st, args, post=arrays, eff=EOPS, **kw):
        if eff:
            st.misc["noeff"] = eff
        out.append(Case("al_" + op, label, st, args, post, **kw))

    ALLOC = ("new", "delete")

    def one(lo=0):
        s = State()
        n = length(s, "n", lo)
        f, l = rng(s, "A", n)
        return s, n, f, l

    def val(s, o="x", t=X):
        v = add_value(s, o, t)
        s.spec["vals"] = s.spec.get("vals", ()) + ((o, 0, t),)
        return v

    # ---- searches that stop at the first element accepted: every length
    for op, pred, hit, x in (("find", "eq", 1, True), ("find_if", "P1", 1, False), ("find_if_not", "P1", 0, False)):
        s, n, f, l = one()
        a = [f, l] + ([val(s)] if x else [])
        t = (lambda i: (tA(i), X)) if x else (lambda i: (tA(i),))
        add(op, "range of n>=0", s, a, first_post("A", (0,), pred, t, hit))
        if x:
            s, n, f, l = one()
            j = length(s, "j")
            assert s.assume_ge(n - 1 - j)
            # the value is an element of the range: at the latest it is found there
            add(op, "value is an element of the range", s, [f, l, f[:2] + (f[2] + j * 16,)],
                first_own())
            out[-1].st.facts = (("pf", "eq", (tA(j), tA(j)), 1),)
    for op, hit, none in (("all_of", 0, 1), ("any_of", 1, 0), ("none_of", 1, 1)):
        s, n, f, l = one()
        add(op, "range of n>=0", s, [f, l], every_post("P1", lambda i: (tA(i),), hit, none))
    for op, pred in (("adjacent_find", "eq"), ("adjacent_find_p", "P2")):
        s, n, f, l = one()
        add(op, "range of n>=0", s, [f, l], first_post("A", (0,), pred, lambda i: (tA(i), tA(i + 1)), 1, add=(ZERO,)))
    s, n, f, l = one()
    add("is_sorted_until", "range of n>=0", s, [f, l], first_post("A", (0,), "lt", lambda i: (tA(i + 1), tA(i)), 1, add=(ONE,)))
    s, n, f, l = one()
    add("is_sorted", "range of n>=0", s, [f, l], every_post("lt", lambda i: (tA(i + 1), tA(i)), 1, 1, off=1))
    for sfx, pred in (("", "eq"), ("_p", "P2")):
        t = lambda i: (tA(i), tB(i))
        for four in (0, 1):
            s, n, f, l = one()
            m = length(s, "m")
            if not four:
                assert s.assume_ge(m - n)
            g, h = rng(s, "B", m)
            lb = "ranges of n, m" if four else "second range at least as long"
            add("equal" + str(3 + four) + sfx, lb, s.copy(), [f, l, g] + ([h] if four else []),
                every_post(pred, t, 0, 1, same=bool(four)))
            s = s.copy()
            r = add_out(s, "r", 16)
            add("mismatch" + str(3 + four) + sfx, lb, s, [r, f, l, g] + ([h] if four else []),
                first_post("A", (0, 1) if four else (0,), pred, t, 0, two=("A", "B")))
    # ---- element-wise algorithms: every length
    s, n, f, l = one()
    aword(s, "A", V("f(A)", 0, n))
    add("for_each", "range of n>=0", s, [f, l], eff=("E.ctor", "E.copy", "E.dtor", "E.assign") + ALLOC)
    for lb in ("empty", "n>=1"):
        s = State()
        n = ZERO if lb == "empty" else length(s, "n", 1)
        f, l = rng(s, "A", n)
        r = add_value(s, "r", ("t", "old"))
        x = val(s)
        s.spec["vals"] = s.spec["vals"] + (("r", 0, X if n == ZERO else ("V", "acc(x,A)", n)),)
        slots(s, n)
        add("accumulate", lb, s, [r, f, l, x], eff=ALLOC)
    s = State()
    s.objs["a"] = Obj(16, True, "value", ((0, ("E", X)),), None)
    s.objs["b"] = Obj(16, True, "value", ((0, ("E", Y)),), None)
    s.spec["vals"] = (("a", 0, Y), ("b", 0, X))
    add("iter_swap", "", s, [obj("a"), obj("b")], eff=ALLOC)
    s = State()
    s.objs["a"] = Obj(16, True, "value", ((0, ("E", X)),), None)
    s.spec["vals"] = (("a", 0, X),)
    add("iter_swap", "same element", s, [obj("a"), obj("a")], eff=ALLOC)
    s, n, f, l = one()
    m = length(s, "m")
    assert s.assume_ge(m - n)
    g, h = rng(s, "B", m)
    aword(s, "A", V("B", 0, n))
    aword(s, "B", V("A", 0, n), V("B", n, m))
    s.spec["wret"] = g[:2] + (n * 16,)
    add("swap_ranges", "second range at least as long", s, [f, l, g], eff=ALLOC)
    s, n, f, l = one()
    x = val(s)
    aword(s, "A", C(X, n))
    add("fill", "range of n>=0", s, [f, l, x], eff=("E.ctor", "E.copy", "E.dtor") + ALLOC)
    for lb in ("count<=0", "count>=1"):
        s, n, f, l = one()
        x = val(s)
        k = sym("k")
        slots(s, k)
        if lb == "count<=0":
            assert s.assume_ge(-k)
            s.spec["wret"] = f
        else:
            assert s.assume_ge(k - 1) and s.assume_ge(n - k)
            aword(s, "A", C(X, k), V("A", k, n))
            s.spec["wret"] = f[:2] + (k * 16,)
        add("fill_n", lb, s, [f, k, x], eff=("E.ctor", "E.copy", "E.dtor") + ALLOC)

    def dest(s, n, extra=True):
        m = length(s, "m")
        assert s.assume_ge(m - n)
        d, e = rng(s, "D", m)
        return d, m
    E3 = ("E.ctor", "E.copy", "E.dtor") + ALLOC
    for op in ("copy", "copy_n", "transform", "reverse_copy", "transform2"):
        s, n, f, l = one()
        d, m = dest(s, n)
        if op == "transform2":
            g, h = rng(s, "B", n)
            w = V("U2(A,B)", 0, n)
        else:
            w = V("A", 0, n, -1) if op == "reverse_copy" else V("U1(A)", 0, n) if op == "transform" else V("A", 0, n)
        aword(s, "D", w, V("D", n, m))
        s.spec["wret"] = d[:2] + (n * 16,)
        a = [f, n, d] if op == "copy_n" else [f, l, g, d] if op == "transform2" else [f, l, d]
        add(op, "range of n>=0, other destination", s, a, eff=ALLOC if "trans" in op else E3)
    s, n, f, l = one()
    d, m = dest(s, n)
    k = sym("k")
    slots(s, k)
    assert s.assume_ge(-k)
    s.spec["wret"] = d
    add("copy_n", "count<=0", s, [f, k, d], eff=EOPS)
    # in place
    s, n, f, l = one()
    aword(s, "A", V("U1(A)", 0, n))
    s.spec["wret"] = l
    add("transform", "in place", s, [f, l, f], eff=ALLOC)
    s, n, f, l = one()
    j = length(s, "j")
    assert s.assume_ge(n - j)
    aword(s, "A", V("A", j, n), V("A", n - j, n))
    s.spec["wret"] = f[:2] + ((n - j) * 16,)
    add("copy", "overlapping, destination before the range", s, [f[:2] + (j * 16,), l, f], eff=E3)
    s, n, f, l = one()
    d, m = dest(s, n)
    aword(s, "D", V("D", 0, m - n), V("A", 0, n))
    s.spec["wret"] = d[:2] + ((m - n) * 16,)
    add("copy_backward", "other destination", s, [f, l, d[:2] + (m * 16,)], eff=E3)
    s, n, f, l = one()
    j = length(s, "j")
    assert s.assume_ge(n - j)
    aword(s, "A", V("A", 0, j), V("A", 0, n - j))
    s.spec["wret"] = f[:2] + (j * 16,)
    add("copy_backward", "overlapping, destination after the range", s, [f, f[:2] + ((n - j) * 16,), l], eff=E3)
    s, n, f, l = one()
    add_obj(s, "gen", 8, {0: ZERO}, "value")
    aword(s, "A", V("gen", 0, n))
    add("generate", "range of n>=0", s, [f, l], eff=ALLOC)
    for lb in ("count<=0", "count>=1"):
        s, n, f, l = one()
        add_obj(s, "gen", 8, {0: ZERO}, "value")
        k = sym("k")
        slots(s, k)
        if lb == "count<=0":
            assert s.assume_ge(-k)
            s.spec["wret"] = f
        else:
            assert s.assume_ge(k - 1) and s.assume_ge(n - k)
            aword(s, "A", V("gen", 0, k), V("A", k, n))
            s.spec["wret"] = f[:2] + (k * 16,)
        add("generate_n", lb, s, [f, k], eff=ALLOC)
    s, n, f, l = one()
    aword(s, "A", V("A", 0, n, -1))
    add("reverse", "range of n>=0", s, [f, l], eff=ALLOC)
    for lb in ("empty", "n>=1"):
        s = State()
        n = ZERO if lb == "empty" else length(s, "n", 1)
        f, l = rng(s, "A", n)
        x = val(s)
        if n != ZERO:
            aword(s, "A", C(X), V("inc(x)", 1, n))
        add("iota", lb, s, [f, l, x], eff=ALLOC)
    # ---- binary searches: every length, every partition point
    for sfx, pred in (("", "lt"), ("_c", "P2")):
        for op in ("lower_bound", "upper_bound", "binary_search", "equal_range"):
            s, n, f, l = one()
            p = length(s, "p")
            q = length(s, "q")
            assert s.assume_ge(q - p) and s.assume_ge(n - q)
            x = val(s)
            AT = sym("@")
            below = (("V", "A", AT), X)
            above = (X, ("V", "A", AT))
            s.facts = (("rf", pred, below, ZERO, p, 1), ("rf", pred, below, p, n, 0),
                       ("rf", pred, above, ZERO, q, 0), ("rf", pred, above, q, n, 1))
            a = [f, l, x]
            at = lambda i: f[:2] + (i * 16,)
            if op == "lower_bound":
                s.spec["wret"] = at(p)
            elif op == "upper_bound":
                s.spec["wret"] = at(q)
            elif op == "equal_range":
                add_out(s, "r", 16)
                s.spec["out"] = (("r", 0, at(p)), ("r", 8, at(q)))
                a = [obj("r")] + a
            for lb in ("absent", "present") if op == "binary_search" else ("partition points p<=q",):
                s2 = s.copy()
                if op == "binary_search":
                    s2.spec["wret"] = ("b", int(lb == "present"))
                    ok = s2.assume_ge(q - p - 1) if lb == "present" else s2.assume_eq(q - p)
                    assert ok
                add(op + sfx, lb, s2, a)
        # ---- extrema of two values
        for op in ("min", "max", "minmax"):
            for same in (0, 1):
                s = State()
                a, b = val(s, "a", X), val(s, "b", Y)
                if same:
                    b = a
                if op == "minmax":
                    add_out(s, "r", 16)

                def fn(ask, op=op, pred=pred, same=same, a=a, b=b):
                    ta, tb = X, X if same else Y
                    if op == "min":
                        return {"wret": b if ask(pred, tb, ta) else a}
                    if op == "max":
                        return {"wret": b if ask(pred, ta, tb) else a}
                    w = (b, a) if ask(pred, tb, ta) else (a, b)
                    return {"out": (("r", 0, w[0]), ("r", 8, w[1]))}
                add(op + sfx, "same element" if same else "two elements", s,
                    ([obj("r")] if op == "minmax" else []) + [a, b], ref_post(fn), order=(pred,))
    out += bounded()
    return out


def first_own():
    """find of an element of the range itself: the result is the first element equal to it"""
    def post(eng, st):
        n, j = st.spec["P"]
        i = index_of(st.spec["ret"], "argA")
        if i is None or not st.entails(i) or not st.entails(j - i):
            yield st, ("result", "the result lies past the element searched for")
            return
        t = lambda k: (tA(k), tA(j))
        if not range_known(st, eng, "eq", t, ZERO, i, 0):
            yield st, ("result", "an element before the result was not rejected")
            return
        if not st.entails_eq(i, j) and known2(st, eng, "eq", t(i)) != 1:
            yield st, ("result", "the result was not accepted")
            return
        yield from arrays(eng, st)
    return post


def bounded():
    """algorithms whose result depends on the number of accepted elements: all outcomes of the predicate on short ranges,
    and the memory rules on ranges of every length"""
    out = []

    def fixed(n, S="A", st=None):
        s = st if st is not None else State()
        f, l = rng(s, S, const(n))
        return s, f, l

    def add(op, label, st, args, fn, eff, **kw):
        st.misc["noeff"] = eff
        out.append(Case("al_" + op, label, st, args, ref_post(fn) if fn else arrays, kexact=12, **kw))

    def mem(op, st, args, eff, free=(), **kw):
        """every length; the words of the ranges in `free` are not specified"""
        star = ("t", "*")           # every element holds the same unspecified value
        for A in list(st.arrs):
            a = st.arrs[A]
            st.arrs[A] = a._replace(chunks=tuple((lo, hi, ("C", star)) for lo, hi, _ in a.chunks))
            st.spec["aw:" + A] = (C(star, a.n),)
        for o in list(st.objs):
            if st.objs[o].fields and st.objs[o].fields[0][1][:1] == ("E",):
                st.objs[o] = st.objs[o]._replace(fields=((0, ("E", star)),))
        if "vals" in st.spec:
            st.spec["vals"] = tuple((o, f, star) for o, f, _ in st.spec["vals"])
        st.misc["nofacts"] = True
        st.misc["noeff"] = eff
        out.append(Case("al_" + op, "every length, memory rules", st, args, arrays, **kw))

    ALLOC = ("new", "delete")
    E3 = ("E.ctor", "E.copy", "E.dtor") + ALLOC

    def val(s, o="x", t=X):
        v = add_value(s, o, t)
        s.spec["vals"] = s.spec.get("vals", ()) + ((o, 0, t),)
        return v

    def at(A, i):
        return aptr("arg" + A, const(i * 16))

    def sq(S, idx):
        return tuple(V(S, i, i + 1) for i in idx)
    # search, search_n
    for sfx, pred in (("", "eq"), ("_p", "P2")):
        for n in range(0, 5):
            for m in range(0, 4):
                s, f, l = fixed(n)
                s, g, h = fixed(m, "B", s)

                def fn(ask, n=n, m=m, pred=pred):
                    for i in range(0, n - m + 1):
                        if all(ask(pred, tA(i + k), tB(k)) for k in range(m)):
                            return {"wret": at("A", i)}
                    return {"wret": at("A", n)}
                add("search" + sfx, "n=%d, m=%d" % (n, m), s, [f, l, g, h], fn, EOPS)
        for n in range(0, 5):
            for k in range(-1, n + 2):
                s, f, l = fixed(n)
                x = val(s)

                def fn(ask, n=n, k=k, pred=pred):
                    if k <= 0:
                        return {"wret": at("A", 0)}
                    for i in range(0, n - k + 1):
                        if all(ask(pred, tA(i + j), X) for j in range(k)):
                            return {"wret": at("A", i)}
                    return {"wret": at("A", n)}
                add("search_n" + sfx, "n=%d, count=%d" % (n, k), s, [f, l, const(k), x], fn, EOPS)
        s = State()
        n, m = length(s, "n"), length(s, "m")
        f, l = rng(s, "A", n)
        g, h = rng(s, "B", m)
        mem("search" + sfx, s, [f, l, g, h], EOPS)
        s = State()
        n = length(s, "n")
        k = sym("k")
        slots(s, k)
        f, l = rng(s, "A", n)
        mem("search_n" + sfx, s, [f, l, k, val(s)], EOPS)
    # one pass with a test per element
    T = {"eq": lambda i: ("eq", tA(i), X), "P1": lambda i: ("P1", tA(i))}
    for op, tst in (("count", "eq"), ("count_if", "P1"), ("copy_if", "P1"), ("remove_copy", "eq"), ("remove_copy_if", "P1"),
                    ("replace_copy", "eq"), ("replace_copy_if", "P1"), ("remove", "eq"), ("remove_if", "P1"),
                    ("replace", "eq"), ("replace_if", "P1")):
        for n in list(range(0, NMAX + 1)) + [None]:
            s = State()
            N = length(s, "n") if n is None else const(n)
            f, l = rng(s, "A", N)
            a = [f, l]
            hasd = "copy" in op
            if hasd:
                d, e = rng(s, "D", N)
                a.append(d)
            if tst == "eq":
                a.append(val(s))
            if "replace" in op:
                a.append(val(s, "y", Y))
            eff = EOPS if op.startswith("count") else E3
            if n is None:
                mem(op, s, a, eff, ("D",) if hasd else ("A",) if eff == E3 else ())
                continue

            def fn(ask, n=n, op=op, t=T[tst], hasd=hasd):
                hits = [bool(ask(*t(i))) for i in range(n)]
                if op.startswith("count"):
                    return {"wret": const(sum(hits))}
                if op.startswith("replace"):
                    w = tuple(C(Y) if h else V("A", i, i + 1) for i, h in enumerate(hits))
                    if not hasd:
                        return {"aw:argA": w}
                    return {"aw:argD": w, "wret": at("D", n)}
                keep = [i for i, h in enumerate(hits) if h == (op == "copy_if")]
                w = sq("A", keep)
                if hasd:
                    return {"aw:argD": w + sq("D", range(len(keep), n)), "wret": at("D", len(keep))}
                # the elements after the returned end are unspecified
                return {"aw:argA": w + (("any", None, const(n - len(keep))),), "wret": at("A", len(keep))}
            add(op, "n=%d" % n, s, a, fn, eff)
    # the value removed or replaced is an element of the range itself
    # merge
    for n in range(0, 4):
        for m in range(0, 4):
            s, f, l = fixed(n)
            s, g, h = fixed(m, "B", s)
            s, d, e = fixed(n + m, "D", s)
            s.facts = tuple(sorted_fact(S, const(k), "lt") for S, k in (("A", n), ("B", m)) if k)

            def fn(ask, n=n, m=m):
                i = j = 0
                w = ()
                while i < n or j < m:
                    if j == m or (i < n and not ask("lt", tB(j), tA(i))):
                        w += sq("A", [i])
                        i += 1
                    else:
                        w += sq("B", [j])
                        j += 1
                return {"aw:argD": w, "wret": at("D", n + m)}
            add("merge", "n=%d, m=%d" % (n, m), s, [f, l, g, h, d], fn, E3, order=("lt",))
    s = State()
    n, m = length(s, "n"), length(s, "m")
    f, l = rng(s, "A", n)
    g, h = rng(s, "B", m)
    d, e = rng(s, "D", n + m)
    mem("merge", s, [f, l, g, h, d], E3, ("D",))
    # extrema of ranges
    for op in ("min_element", "max_element", "minmax_element"):
        for n in list(range(0, NMAX + 1)) + [None]:
            s = State()
            N = length(s, "n") if n is None else const(n)
            f, l = rng(s, "A", N)
            a = [f, l]
            if op == "minmax_element":
                a = [add_out(s, "r", 16)] + a
            if n is None:
                mem(op, s, a, EOPS)
                continue

            def fn(ask, n=n, op=op):
                if n == 0:
                    lo = hi = 0
                else:
                    lo = hi = 0
                    for i in range(1, n):
                        if ask("lt", tA(i), tA(lo)):
                            lo = i
                    for i in range(1, n):
                        if ask("lt", tA(hi), tA(i)):
                            hi = i
                if op == "minmax_element":
                    return {"out": (("r", 0, at("A", lo)), ("r", 8, at("A", hi)))}
                return {"wret": at("A", lo if op == "min_element" else hi)}
            add(op, "n=%d" % n, s, a, fn, EOPS, order=("lt",))
    return out
