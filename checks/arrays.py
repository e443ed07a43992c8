"""array, pair, ttl::swap, make_pair, select_*, distance/advance/countof and the function objects."""
from cases import *
from lists import X, EOPS

UNIT = "arrays.cpp"
NODES = {}
SIZES = {"z_a0": 16, "z_a1": 16, "z_a5": 80, "z_pr": 32, "z_second": 16}
SEM = {}
ENGINE = {}
ANY = ("~any",)


def run_post(eng, st):
    """every object holds the specified elements (and nothing else is alive); result; comparison facts; effects"""
    want = dict(st.spec.get("hold", ()))
    errs = []
    for o, toks in sorted(want.items()):
        got = {k: v for k, v in st.objs[o].fields if v != UNDEF}
        exp = {16 * i: ("E", t) for i, t in enumerate(toks)}
        if got != exp:
            errs.append(("contents", "'%s' holds %s, expected %s" % (o, [v[1] for v in got.values()], list(toks))))
    for o, v in sorted(st.objs.items()):
        if o not in want and v.alive and any(isinstance(x, tuple) and x[0] == "E" for _, x in v.fields):
            errs.append(("leaked-element", "an element of '%s' is still alive" % o))
    if st.eff & {"new", "delete", "new[]", "delete[]"}:
        errs.append(("alloc", "allocates or releases memory"))
    for e in eff_check(st):
        errs.append(e)
    chk = st.misc.get("check")
    m = chk(st) if chk else None
    if m:
        errs.append(("result", m))
    for e in errs:
        yield st, e
    if not errs:
        yield st, None


def val(r):
    if isinstance(r, tuple) and r[0] == "b":
        return r[1]
    return r.c if isinstance(r, Lin) and r.is_const() else r


def ret(v):
    def f(st):
        g = st.spec.get("ret")
        return None if val(g) == val(v) else "returns %s, expected %s" % (show(g) if isinstance(g, tuple) and g[0] == "p" else g,
                                                                          show(v) if isinstance(v, tuple) and v[0] == "p" else v)
    return f


def pairwise(pairs, pos):
    """the result is pos exactly when every pair compared equal"""
    def f(st):
        known = {}
        for x in st.facts:
            if x[0] == "pf" and x[1] == "eq":
                known[x[2]] = known[x[2][::-1]] = x[3]
        r = val(st.spec.get("ret"))
        if r == pos:
            if not all(known.get(p) == 1 or p[0] == p[1] for p in pairs):
                return "reports equality without comparing every pair of elements"
        elif r == 1 - pos:
            if not any(known.get(p) == 0 for p in pairs):
                return "reports a difference although no two corresponding elements differ"
        else:
            return "the result is not a truth value"
    return f


def asks(pred, args, neg=False):
    """the result is the answer of exactly this comparison"""
    def f(st):
        a = [x for x in st.facts if x[0] == "pf"]
        if [x[1:3] for x in a] != [(pred, args)]:
            return "does not ask %s%s once" % (pred, [x[1] for x in args])
        return None if val(st.spec.get("ret")) == (a[0][3] != neg) else "the result is not the answer of the comparison"
    return f


def cases():
    out = []

    def add(op, label, objs, args, hold=None, chk=None, noeff=()):
        """objs: {name: (size, tokens)}"""
        st = State()
        for o, (size, toks) in objs.items():
            st.objs[o] = Obj(size, True, "this", tuple((16 * i, ("E", t)) for i, t in enumerate(toks)), None)
        h = {o: t for o, (s, t) in objs.items()}
        h.update(hold or {})
        st.spec["hold"] = tuple(sorted(h.items()))
        st.misc["check"] = chk
        st.misc["noeff"] = noeff
        out.append(Case(op, label, st, args, run_post, kexact=8))

    def toks(s, n):
        return tuple((s, i) for i in range(n))

    RO = ("E.assign", "E.copy", "E.ctor", "E.dtor", "E.write")
    for p, n, size in (("a0", 0, 16), ("a1", 1, 16), ("a5", 5, 80)):
        a, b = toks("a", n), toks("b", n)
        A, B = {"a": (size, a)}, {"a": (size, a), "b": (size, b)}
        if n == 0:      # the padding element of a zero-length array
            A, B = {"a": (size, (("a", 0),))}, {"a": (size, (("a", 0),)), "b": (size, (("b", 0),))}
        add(p + "_fill", "", dict(A, v=(16, (X,))), [obj("a"), obj("v")], {"a": (X,) * n} if n else None)
        for i in range(n):
            add(p + "_fill", "with own element %d" % i, A, [obj("a"), ("p", ("o", "a"), const(16 * i))], {"a": (a[i],) * n})
        add(p + "_swap", "", B, [obj("a"), obj("b")], {"a": b, "b": a} if n else None)
        add(p + "_swap", "with itself", A, [obj("a"), obj("a")])
        for op in ("begin", "beginc", "cbegin", "data", "cdata"):
            add("%s_%s" % (p, op), "", A, [obj("a")], None, ret(obj("a")), RO)
        for op in ("end", "endc", "cend"):
            add("%s_%s" % (p, op), "", A, [obj("a")], None, ret(("p", ("o", "a"), const(16 * n))), RO)
        for op, v in (("size", n), ("max_size", n), ("empty", int(n == 0))):
            add("%s_%s" % (p, op), "", A, [obj("a")], None, ret(const(v)), RO)
        for i in range(n):
            for op in ("index", "cindex", "at", "cat"):
                add("%s_%s" % (p, op), "position %d" % i, A, [obj("a"), const(i)], None, ret(("p", ("o", "a"), const(16 * i))), RO)
        if n:
            for op in ("front", "cfront"):
                add("%s_%s" % (p, op), "", A, [obj("a")], None, ret(obj("a")), RO)
            for op in ("back", "cback"):
                add("%s_%s" % (p, op), "", A, [obj("a")], None, ret(("p", ("o", "a"), const(16 * n - 16))), RO)
        for op, pos in (("eq", 1), ("ne", 0)):
            add("%s_%s" % (p, op), "", B, [obj("a"), obj("b")], None, pairwise(list(zip(a, b)), pos), RO)
            add("%s_%s" % (p, op), "with itself", A, [obj("a"), obj("a")], None, pairwise(list(zip(a, a)), pos), RO)
        if n:
            add(p + "_copy", "", {"a": (size, ()), "b": (size, b)}, [obj("a"), obj("b")], {"a": b}, None, ("E.assign",))
            add(p + "_asg", "", B, [obj("a"), obj("b")], {"a": b})
            add(p + "_asg", "self-assignment", A, [obj("a"), obj("a")])
    a, b = toks("a", 2), toks("b", 2)
    x, y = ("t", "x"), ("t", "y")
    PA, PB, RAWP = (32, a), (32, b), (32, ())
    add("pr_ctor", "", {"p": RAWP}, [obj("p")], {"p": (("def",), ("def",))})
    for op in ("pr_ctor2", "pr_make"):
        add(op, "", {"p": RAWP, "x": (16, (x,)), "y": (16, (y,))}, [obj("p"), obj("x"), obj("y")], {"p": (x, y)})
        add(op, "the same element twice", {"p": RAWP, "x": (16, (x,))}, [obj("p"), obj("x"), obj("x")], {"p": (x, x)})
    for op in ("pr_copy", "pr_conv"):
        add(op, "", {"p": RAWP, "o": PB}, [obj("p"), obj("o")], {"p": b})
    for op in ("pr_asg", "pr_asgc"):
        add(op, "", {"p": PA, "o": PB}, [obj("p"), obj("o")], {"p": b})
        add(op, "self-assignment", {"p": PA}, [obj("p"), obj("p")])
    for op in ("pr_swap", "ut_swap_pair"):
        add(op, "", {"p": PA, "o": PB}, [obj("p"), obj("o")], {"p": b, "o": a})
        add(op, "with itself", {"p": PA}, [obj("p"), obj("p")])
    for op, pos in (("pr_eq", 1), ("pr_ne", 0)):
        add(op, "", {"p": PA, "o": PB}, [obj("p"), obj("o")], None, pairwise(list(zip(a, b)), pos), RO)
        add(op, "with itself", {"p": PA}, [obj("p"), obj("p")], None, pairwise(list(zip(a, a)), pos), RO)
    for op, off in (("first", 0), ("cfirst", 0), ("second", 16), ("csecond", 16)):
        add("pr_" + op, "", {"p": PA}, [obj("p")], None, ret(("p", ("o", "p"), const(off))), RO)
    E2 = {"x": (16, (x,)), "y": (16, (y,))}
    add("ut_same", "", {"x": (16, (x,))}, [obj("x")], None, ret(obj("x")), RO)
    add("ut_move", "", {"x": (16, (x,))}, [obj("x")], None, ret(obj("x")), RO)
    add("ut_swap", "", E2, [obj("x"), obj("y")], {"x": (y,), "y": (x,)})
    add("ut_swap", "with itself", {"x": (16, (x,))}, [obj("x"), obj("x")])
    W = {"a": (80, toks("a", 5))}
    at = lambda i: ("p", ("o", "a"), const(16 * i))
    for i in range(6):
        for j in range(6):
            add("ut_distance", "%d to %d" % (i, j), W, [at(i), at(j)], None, ret(const(j - i)), RO)
            add("ut_advance", "%d by %d" % (i, j - i), W, [at(i), const(j - i)], None, ret(at(j)), RO)
    for op in ("ut_countof", "ut_ttl_countof"):
        add(op, "", {}, [], None, ret(const(7)), RO)
    for op, pred, args, neg in (("fo_less", "lt", (x, y), False), ("fo_greater", "lt", (y, x), False), ("fo_equal", "eq", (x, y), False),
                                ("fo_not_equal", "eq", (x, y), True)):
        add(op, "", E2, [obj("x"), obj("y")], None, asks(pred, args, neg), RO)
    return out
