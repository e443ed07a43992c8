"""sorted_vector_map: every operation, maps of every size and spare capacity, keys absent and present at every position."""
from cases import *
from lists import X

UNIT = "vmaps.cpp"
PAIR = Layout("pair", 32, None, None, (0,))
NODES = {32: PAIR}
SIZES = {"sm_sizeof": 24, "pair_sizeof": 32}
SEM = {
    "_ZN1KC1ERKS_": ("copy",), "_ZN1KD1Ev": ("dtor",), "_ZN1MC1Ev": ("ctor",), "_ZN1MD1Ev": ("dtor",), "_ZN1MC1ERKS_": ("copy",),
    "_ZN1MaSERKS_": ("assign",), "_ZN1KaSERKS_": ("assign",), "_ZN1KC1Ev": ("ctor",),
    "_ZN3ttl4pairI1K1MEC1ERKS1_RKS2_": ("fn", "pair", 0, (1, 2)),
    "_ZN3ttl4pairI1K1MEC1ERKS3_": ("copy",), "_ZN3ttl4pairI1K1MED1Ev": ("dtor",), "_ZN3ttl4pairI1K1MEaSERKS3_": ("assign",),
    "_ZNK2CKclERK1KS2_": ("pred", "lt", (1, 2)),
    "_ZeqRK1KS1_": ("pred", "eq", (0, 1)),
}
SEMSIZE = {k: 16 for k in SEM if k.startswith(("_ZN1K", "_ZN1M"))}
ENGINE = {"esz": 32, "semsize": SEMSIZE, "sums": True, "geprange": True}
NOEFF = ("E.ctor", "E.copy", "E.dtor", "E.assign", "new", "delete")
AT = sym("@")


def alloc(eng, st, site, size, kind):
    """operator new[]: a block of pointers"""
    if kind != "new[]":
        return None
    n = size.divexact(8)
    if n is None:
        return None
    A = "A" + site
    k = 0
    while A in st.arrs:
        k += 1
        A = "A%s~%d" % (site, k)
    st.arrs[A] = Arr(8, n, True, "P", ((ZERO, n, RAW),) if n != ZERO else ())
    st.spec["newkind " + A] = kind
    return [(st, aptr(A, ZERO))]


def smap(st, o, S, n, c):
    """map o: c slots, the first n designate the nodes S[0..n) (pairs S[0..n), ascending keys); c None: no storage"""
    if c is None:
        add_obj(st, o, 24, {0: NULL, 8: NULL, 16: NULL}, "cont")
        return
    ch = []
    if n != ZERO:
        ch.append((ZERO, n, ("Pn", S, ZERO, ZERO)))
        st.lay[S] = PAIR
        st.chunks = st.chunks + (Seg(S, ZERO, n, 1, None, None, ((0, ("V", S, ZERO)),)),)
    if c != n:
        ch.append((n, c, RAW))
    st.arrs["B" + o] = Arr(8, c, True, "P", tuple(ch))
    st.spec["newkind B" + o] = "new[]"
    add_obj(st, o, 24, {0: aptr("B" + o, ZERO), 8: aptr("B" + o, n * 8), 16: aptr("B" + o, c * 8)}, "cont")


def maps(o, S, st=None):
    out = []
    st = st or State()
    n, c = sym("n" + S), sym("c" + S)
    s = st.copy()
    smap(s, o, S, ZERO, None)
    out.append((o + " without storage", s, ZERO, None))
    for lb, k, cc in (("empty, no slots", ZERO, ZERO), ("empty, spare slots", ZERO, c), ("of n>=1, full", n, n),
                      ("of n>=1, spare slots", n, c)):
        s = st.copy()
        if k == n:
            assert s.assume_ge(n - 1)
        if cc == c:
            assert s.assume_ge(c - k - 1)
        slots(s, k, cc)
        smap(s, o, S, k, cc)
        out.append(("%s %s" % (o, lb), s, k, cc))
    return out


def cont(st, o, want, keep=None):
    st.spec["conts"] = st.spec.get("conts", ()) + ((o, "pvec", 0, o),)
    st.spec["want:" + o] = tuple(x for x in want if ilen(x) != ZERO)


def keyed(st, S, n, k="x"):
    """[(label, state, p, present)]: where the key X belongs in the ascending sequence of n keys"""
    if n == ZERO:
        return [("key absent", st, ZERO, 0)]
    out = []
    p = sym("p")
    for lb, e in (("key absent, position p", 0), ("key present at p", 1)):
        s = st.copy()
        assert s.assume_ge(p) and s.assume_ge(n - p - e)
        slots(s, p)
        a = ("V", S, AT)
        s.facts = s.facts + (("rf", "lt", (a, X), ZERO, p, 1), ("rf", "lt", (a, X), p, n, 0),
                             ("rf", "lt", (X, a), ZERO, p + e, 0), ("rf", "lt", (X, a), p + e, n, 1),
                             ("rf", "eq", (a, X), ZERO, p, 0), ("rf", "eq", (a, X), p + e, n, 0))
        if e:
            s.facts = s.facts + (("rf", "eq", (a, X), p, p + 1, 1),)
        out.append((lb, s, p, e))
    return out


def key(st, size=16):
    st.objs["x"] = Obj(size, True, "value", ((0, ("E", X)),), None)
    st.spec["vals"] = (("x", 0, X),)
    return obj("x")


def spos(o, c, i):
    """pointer to slot i of map o"""
    return NULL if c is None else aptr("B" + o, i * 8)


def cases():
    out = []

    def add(op, label, st, args, noeff=NOEFF, **kw):
        if noeff:
            st.misc["noeff"] = noeff
        out.append(Case("sm_" + op, label, st, args, **kw))

    def iters(op, label, st, args, **kw):
        st.misc["noeff"] = NOEFF
        out.append(Case(op, label, st, args, **kw))
    # construction and destruction
    s = State()
    s.objs["l"] = Obj(24, True, "cont", (), None)
    cont(s, "l", ())
    add("ctor", "", s, [obj("l")])
    for lb in ("0", "n>=1"):
        s = State()
        n = sym("n")
        slots(s, n)
        assert s.assume_eq(n) if lb == "0" else s.assume_ge(n - 1)
        s.objs["l"] = Obj(24, True, "cont", (), None)
        cont(s, "l", ())
        add("ctor_prealloc", lb, s, [obj("l"), ZERO if lb == "0" else n], ("E.ctor", "E.copy", "E.dtor", "E.assign", "delete"))
    for lb, s, n, c in maps("o", "A"):
        s.objs["l"] = Obj(24, True, "cont", (), None)
        w = (V("A", 0, n),) if n != ZERO else ()
        cont(s, "l", w)
        cont(s, "o", w)
        add("ctor_copy", lb, s, [obj("l"), obj("o")], ("E.dtor", "E.assign", "delete"))
    for lb, s, n, c in maps("l", "A"):
        s.misc["dead"] = ("l",)
        add("dtor", lb, s, [obj("l")], ("new", "E.copy", "E.ctor", "E.assign"))
    for lb, s, n, c in maps("l", "A"):
        cont(s, "l", ())
        add("clear", lb, s, [obj("l")], ("new", "E.copy", "E.ctor", "E.assign"))
    # insertion
    for lb, s, n, c in maps("l", "A"):
        for kl, s1, p, e in keyed(s, "A", n):
            for op in ("insert", "index"):
                s2 = s1.copy()
                if op == "insert":
                    a = key(s2, 32)
                    new = X
                else:
                    a = key(s2)
                    new = ("f", "pair", X, ("def",))
                w = [V("A", 0, n)] if e else [V("A", 0, p), C(new), V("A", p, n)]
                cont(s2, "l", w)
                full = c is None or c == n
                eff = NOEFF if e else ("E.assign",) + (("delete",) if not full else ())
                if op == "insert":
                    add_out(s2, "r")
                    s2.spec["outidx"] = (("r", 0, "l", p),)
                    s2.spec["wret"] = ("b", 1 - e)
                    add(op, "%s, %s" % (lb, kl), s2, [obj("r"), obj("l"), a], eff)
                elif e:
                    s2.spec["wret"] = node("A", p, 16)
                    add(op, "%s, %s" % (lb, kl), s2, [obj("l"), a], eff)
                else:
                    add(op, "%s, %s" % (lb, kl), s2, [obj("l"), a], eff, post=new_second)
            if e:       # the pair inserted is an element of the map
                s2 = s1.copy()
                cont(s2, "l", [V("A", 0, n)])
                add_out(s2, "r")
                s2.spec["outidx"] = (("r", 0, "l", p),)
                s2.spec["wret"] = ("b", 0)
                AX = ("V", "A", p)
                s2.facts = tuple((f[0], f[1], tuple(AX if t == X else t for t in f[2])) + f[3:] for f in s2.facts)
                add("insert", "%s, the element at p" % lb, s2, [obj("r"), obj("l"), node("A", p)])
                s2 = s2.copy()
                for k in ("outidx", "wret"):
                    s2.spec.pop(k)
                s2.spec["wret"] = node("A", p, 16)
                add("index", "%s, the key at p" % lb, s2, [obj("l"), node("A", p)])
    # lookups
    for lb, s, n, c in maps("l", "A"):
        w = [V("A", 0, n)]
        for kl, s1, p, e in keyed(s, "A", n):
            def look(op, *idx, ret=None, prs=True):
                if not prs:
                    return
                s2 = s1.copy()
                cont(s2, "l", w)
                a = key(s2)
                args = []
                oi = []
                for k, i in enumerate(idx):
                    args.append(add_out(s2, "r%d" % k))
                    oi.append(("r%d" % k, 0, "l", i))
                if oi:
                    s2.spec["outidx"] = tuple(oi)
                if ret is not None:
                    s2.spec["wret"] = ret
                add(op, "%s, %s" % (lb, kl), s2, args + [obj("l"), a])
            fp = p if e else n
            for pf in ("", "c"):
                look(pf + "find", fp)
                look(pf + "lower_bound", p)
                look(pf + "upper_bound", p + e)
                look(pf + "equal_range", p, p + e)
                look(pf + "at", ret=node("A", p, 16), prs=e)
            look("count", ret=const(e))
        for op, i in (("begin", ZERO), ("beginc", ZERO), ("cbegin", ZERO), ("end", n), ("endc", n), ("cend", n)):
            s2 = s.copy()
            cont(s2, "l", w)
            s2.spec["outidx"] = (("r", 0, "l", i),)
            add(op, lb, s2, [add_out(s2, "r"), obj("l")])
        s2 = s.copy()
        cont(s2, "l", w)
        s2.spec["wret"] = n
        add("size", lb, s2, [obj("l")])
        s2 = s.copy()
        cont(s2, "l", w)
        s2.spec["wret"] = ("b", int(n == ZERO))
        add("empty", lb, s2, [obj("l")])
    for op in ("key_comp", "value_comp"):
        for v in (0, 1):
            s = State()
            smap(s, "l", "A", ZERO, None)
            cont(s, "l", ())
            Y = ("t", "y")
            s.objs["a"] = Obj(32, True, "value", ((0, ("E", X)),), None)
            s.objs["b"] = Obj(32, True, "value", ((0, ("E", Y)),), None)
            s.facts = (("pf", "lt", (X, Y), v),)
            s.spec["wret"] = ("b", v)
            add(op, "order %d" % v, s, [obj("l"), obj("a"), obj("b")])
    # iterators
    for pf in ("si", "sc"):
        def itc(op, label, i, j=None, ret=None, at=None, args=None, r=None, prep=None):
            lb, s, n, c = maps("l", "A")[4]
            s = s.copy()
            k = sym("i")
            assert s.assume_ge(k) and s.assume_ge(n - k)
            slots(s, k)
            if prep:
                assert prep(s, k, n)
            cont(s, "l", [V("A", 0, n)])
            add_ptr(s, "i", aptr("Bl", i(k) * 8))
            a = [obj("i")]
            ow = []
            if at is not None:
                ow.append(("i", 0, aptr("Bl", at(k) * 8)))
            if j is not None:
                add_ptr(s, "j", aptr("Bl", j(k) * 8))
                a.append(obj("j"))
            if r is not None:
                a = [add_out(s, "r")] + a
                ow.append(("r", 0, aptr("Bl", r(k) * 8)))
            if ow:
                s.spec["out"] = tuple(ow)
            if ret is not None:
                s.spec["wret"] = ret(k) if callable(ret) else ret
            iters("%s_%s" % (pf, op), label, s, a)
        inner = lambda s, k, n: s.assume_ge(n - 1 - k)
        ident = lambda k: k
        itc("deref", "element i", ident, ret=lambda k: node("A", k), at=ident, prep=inner)
        itc("arrow", "element i", ident, ret=lambda k: node("A", k, 16), at=ident, prep=inner)
        itc("inc", "element i", ident, at=lambda k: k + 1, prep=inner)
        itc("postinc", "element i", ident, at=lambda k: k + 1, r=ident, prep=inner)
        pos = lambda s, k, n: s.assume_ge(k - 1)
        itc("dec", "past element i-1", ident, at=lambda k: k - 1, prep=pos)
        itc("postdec", "past element i-1", ident, at=lambda k: k - 1, r=ident, prep=pos)
        for op in (("eq", "ne", "eqc", "nec") if pf == "si" else ("eq", "ne", "eqi", "nei")):
            itc(op, "same position", ident, j=ident, ret=("b", int(op.startswith("eq"))))
            itc(op, "different positions", ident, j=lambda k: k - 1, ret=("b", int(op.startswith("ne"))), prep=pos)
    itc("conv", "position i", ident, r=ident, at=ident)
    return out


def new_second(eng, st):
    """operator[] of an absent key returns the value of the inserted pair"""
    r = st.spec["ret"]
    ok = isinstance(r, tuple) and r[0] == "p" and r[1] is not None and r[1][0] == "n" and r[1][1].startswith("N") and r[2] == const(16)
    if not ok:
        yield st, ("result", "returns %s, expected the value of the inserted pair" % (show(r) if isinstance(r, tuple) else r))
        return
    s = st.copy()
    s.spec.pop("wret", None)
    yield from generic_post(eng, s)
