"""vector and fixed_vector: every operation from vectors of every size and spare capacity."""
from cases import *
from lists import X, EOPS, arg_range

UNIT = "vectors.cpp"
NODES = {}
NFIX, NBIG = 4, 300
FIXED = {"f1": 1, "fn": NFIX, "fb": NBIG}     # fixed_vector instances: every loop of the small ones is unrolled
SIZES = {"ve_sizeof": 24, "f1_sizeof": 24, "fn_sizeof": NFIX * 16 + 8, "fb_sizeof": NBIG * 16 + 8}
ESZ = 16


def vec(st, o, S, n, c):
    """vector object o: block of c slots, first n hold S[0..n).  c None: no storage"""
    if c is None:
        add_obj(st, o, 24, {0: NULL, 8: NULL, 16: NULL}, "cont")
        return
    ch = []
    if n != ZERO:
        ch.append((ZERO, n, ("V", S, ZERO)))
    if c != n:
        ch.append((n, c, RAW))
    st.arrs["B" + o] = Arr(ESZ, c, True, "E", tuple(ch))
    st.spec["newkind B" + o] = "new"
    add_obj(st, o, 24, {0: aptr("B" + o, ZERO), 8: aptr("B" + o, n * ESZ), 16: aptr("B" + o, c * ESZ)}, "cont")


def fix(st, o, S, n, N):
    ch = []
    if n != ZERO:
        ch.append((ZERO, n, ("V", S, ZERO)))
    if n != const(N):
        ch.append((n, const(N), RAW))
    st.arrs["B" + o] = Arr(ESZ, const(N), True, "E", tuple(ch))
    st.objs[o] = Obj(N * ESZ + 8, True, "cont", ((N * ESZ, ("p", ("o", o), n * ESZ)),), ("B" + o, ZERO, N, ESZ))


def vecs(pf, o, S, st=None):
    """[(label, state, n, c)]"""
    out = []
    st = st or State()
    N = FIXED.get(pf)
    n = sym("n" + S)
    if N:
        for lb, k in (("empty", ZERO), ("of n>=1", n), ("full", const(N))):
            s = st.copy()
            if k == n:
                if N == 1:
                    continue
                assert s.assume_ge(n - 1) and s.assume_ge(const(N - 1) - n)
            slots(s, k)
            fix(s, o, S, k, N)
            out.append(("%s %s" % (o, lb), s, k, const(N)))
        return out
    s = st.copy()
    vec(s, o, S, ZERO, None)
    out.append((o + " without storage", s, ZERO, None))
    c = sym("c" + S)
    for lb, k, cc in (("empty, spare capacity", ZERO, c), ("of n>=1, full", n, n), ("of n>=1, spare capacity", n, c)):
        s = st.copy()
        if k == n:
            assert s.assume_ge(n - 1)
        if cc == c:
            assert s.assume_ge(c - k - (0 if k == ZERO else 1))
        slots(s, k, cc)
        vec(s, o, S, k, cc)
        out.append(("%s %s" % (o, lb), s, k, cc))
    return out


def cont(pf, st, o, want, keep=None):
    st.spec["conts"] = st.spec.get("conts", ()) + ((o, "vec" if pf == "ve" else "fix", 0, o),)
    st.spec["want:" + o] = tuple(x for x in want if ilen(x) != ZERO)
    if keep is not None:        # the block must be the one it had
        st.misc["noeff"] = tuple(set(st.misc.get("noeff", ())) | {"new", "delete"})
        if pf == "ve":
            st.spec["block:" + o] = NULL if keep is False else aptr("B" + o, ZERO)


def elem(pf, o, i, c):
    """pointer to slot i of container o of the pre-state"""
    if pf != "ve":
        return ("p", ("o", o), i * ESZ)
    if c is None:
        return NULL
    return aptr("B" + o, i * ESZ)


def cuts(st, word, N):
    """[(state, word)]: the first N elements of a word of symbolic lengths"""
    out = []
    st = st.copy()
    st.spec["~cw"] = tuple(word)
    work = [(st, 0)]
    while work:
        s, k = work.pop()
        w = s.spec["~cw"]
        used = ZERO
        for x in w[:k]:
            used = used + ilen(x)
        if k == len(w):
            s.spec.pop("~cw")
            out.append((s, w))
            continue
        room = const(N) - used
        a = s.copy()
        if a.assume_ge(room - ilen(w[k])):
            work.append((a, k + 1))
        b = s.copy()
        if b.assume_ge(ilen(w[k]) - room - 1):
            w = b.spec.pop("~cw")
            used = ZERO
            for x in w[:k]:
                used = used + ilen(x)
            room = const(N) - used
            x = w[k]
            x = ("V", x[1], x[2], x[2] + room, 1) if x[0] == "V" else (x[0], x[1], room)
            out.append((b, tuple(w[:k]) + (x,)))
    return out


def cases():
    out = []
    for pf in ("ve",) + tuple(FIXED):
        out += cases_of(pf)
    return out


def cases_of(pf):
    out = []
    N = FIXED.get(pf)
    size = SIZES[pf + "_sizeof"]
    deep = dict(kexact=NFIX + 1) if N and N <= NFIX else {}       # the loops of a fixed_vector run at most N times

    def add(op, label, st, args, want, keep=False, ret=None, post=None, o="l", **kw):
        """want: word of container l (fixed: truncated to N); ret: index the result designates"""
        st = st.copy()
        st.spec["~args"] = tuple(args)
        if ret is not None:
            st.spec["retidx"] = (o, ret)
        r = [(st, tuple(want))]
        if N:
            r = cuts(st, tuple(x for x in want if ilen(x) != ZERO), N)
        for k, (s, w) in enumerate(r):
            a = s.spec.pop("~args")
            w2 = s.spec.pop("~w2", None)
            cont(pf, s, "l", w, keep=(s.spec.pop("~keep", True)) if keep else None)
            if w2 is not None:
                cont(pf, s, "o", w2)
            if N:
                s.misc["noeff"] = tuple(set(s.misc.get("noeff", ())) | {"new", "delete"})
            out.append(Case(pf + "_" + op, label + (" (%d)" % (k + 1) if len(r) > 1 else ""), s, list(a), post or generic_post, **dict(deep, **kw)))

    def keepblock(s, c):
        s.spec["~keep"] = c is not None
        return s

    def uninit(s):
        if N:
            s.arrs["Bl"] = Arr(ESZ, const(N), True, "E", ((ZERO, const(N), RAW),))
            s.objs["l"] = Obj(size, True, "cont", (), ("Bl", ZERO, N, ESZ))
        else:
            add_obj(s, "l", 24, {}, "cont")
        return s

    def count(s, name="cnt"):
        c = sym(name)
        s.assume_ge(c)
        slots(s, c)
        return c

    L = obj("l")
    add("ctor", "default", uninit(State()), [L], ())
    s = uninit(State())
    c = count(s)
    add("ctor_size", "n>=0", s, [L, c], (C(("def",), c),))
    s = uninit(State())
    c = count(s)
    x = add_value(s, "x", X)
    s.spec["vals"] = (("x", 0, X),)
    add("ctor_n", "n>=0", s, [L, c, x], (C(X, c),))
    s = uninit(State())
    f, e, k = arg_range(s, "R")
    add("ctor_range", "range", s, [L, f, e], (V("R", 0, k),))
    for lb, s, m, mc in vecs(pf, "o", "B"):
        uninit(s)
        s.spec["~w2"] = (V("B", 0, m),)
        add("ctor_copy", lb, s, [L, obj("o")], (V("B", 0, m),))
    for lb, st0, n, c in vecs(pf, "l", "A"):
        # destruction: nothing alive, nothing allocated
        s = st0.copy()
        s.misc["dead"] = ("l",)
        out.append(Case(pf + "_dtor", lb, s, [L], generic_post))
        for lb2, st, m, mc in vecs(pf, "o", "B", st0):
            s = st.copy()
            s.spec["~w2"] = (V("B", 0, m),)
            add("assign_op", lb + ", " + lb2, s, [L, obj("o")], (V("B", 0, m),))
            s = st.copy()
            s.spec["~w2"] = (V("A", 0, n),)
            if not N:
                s.misc["noeff"] = EOPS
            add("swap", lb + ", " + lb2, s, [L, obj("o")], (V("B", 0, m),))
            for op, w in (("eq", 1), ("ne", 0)):
                s = st.copy()
                s.spec["LA"], s.spec["LB"] = n, m
                s.spec["~w2"] = (V("B", 0, m),)
                s.misc["noeff"] = EOPS
                add(op, lb + ", " + lb2, s, [L, obj("o")], (V("A", 0, n),), post=eq_post("A", "B", n, m, w))
        add("assign_op", lb + ", self-assignment", st0, [L, L], (V("A", 0, n),))
        add("swap", lb + ", with itself", st0, [L, L], (V("A", 0, n),))
        s = st0.copy()
        k = count(s)
        x = add_value(s, "x", X)
        s.spec["vals"] = (("x", 0, X),)
        if N or c is None:
            add("assign_n", lb, s, [L, k, x], (C(X, k),))
        else:
            for w, cond in ((", fits", c - k), (", no room", k - c - 1)):
                s2 = s.copy()
                s2.spec["~k"] = k
                if s2.assume_ge(cond):
                    k2 = s2.spec.pop("~k")
                    add("assign_n", lb + w, keepblock(s2, c) if w == ", fits" else s2, [L, k2, x], (C(X, k2),), keep=w == ", fits")
        s = st0.copy()
        f, e, k = arg_range(s, "R")
        if N or c is None:
            add("assign_range", lb, s, [L, f, e], (V("R", 0, k),))
        else:
            for w, cond in ((", fits", c - k), (", no room", k - c - 1)):
                s2 = s.copy()
                s2.spec["~k"] = k
                if s2.assume_ge(cond):
                    k2 = s2.spec.pop("~k")
                    add("assign_range", lb + w, keepblock(s2, c) if w == ", fits" else s2, [L, f, e], (V("R", 0, k2),), keep=w == ", fits")
        add("clear", lb, keepblock(st0.copy(), c), [L], (), keep=True)
        if n != ZERO:
            add("pop_back", lb, keepblock(st0.copy(), c), [L], (V("A", 0, n - 1),), keep=True)

        def room(s, k):
            """[(label, state, fits, k)] does an insertion of k fit into the capacity"""
            if N:
                return [("", s, True, k)]
            if c is None:
                r = []
                a = s.copy()
                a.spec["~k"] = k
                if a.assume_ge(-k):
                    r.append((", nothing", keepblock(a, c), True, a.spec.pop("~k")))
                a = s.copy()
                a.spec["~k"] = k
                if a.assume_ge(k - 1):
                    r.append((", no room", a, False, a.spec.pop("~k")))
                return r
            r = []
            for w, cond, fits in ((", fits", c - n - k, True), (", no room", n + k - c - 1, False)):
                a = s.copy()
                a.spec["~k"] = (k, n, c)
                if a.assume_ge(cond):
                    r.append((w, keepblock(a, c) if fits else a, fits, a.spec.pop("~k")[0]))
            return r

        # resize / reserve
        for grow in (0, 1):
            for op in ("resize", "resize_v"):
                s = st0.copy()
                k = count(s)
                if not s.assume_ge(k - n if grow else n - k - 1):
                    continue
                k = s.spec["P"][-1]
                for lr, s2, fits, d in (room(s, k - n) if grow else [("", keepblock(s, c), True, ZERO)]):
                    k2 = s2.spec["P"][-1]
                    n2 = s2.spec["P"][0] if n != ZERO or N else ZERO
                    args = [L, k2]
                    tok = ("def",)
                    if op == "resize_v":
                        args.append(add_value(s2, "x", X))
                        s2.spec["vals"] = (("x", 0, X),)
                        tok = X
                    w = (V("A", 0, n2), C(tok, k2 - n2)) if grow else (V("A", 0, k2),)
                    add(op, lb + (", to n>=size" if grow else ", to n<size") + lr, s2, args, w, keep=fits and not (N and grow))
        if n != ZERO:
            s = st0.copy()
            j = sym("ai")
            assert s.assume_ge(j) and s.assume_ge(n - 1 - j)
            slots(s, j)
            s.spec["AJ"] = (j, n)
            for lr, s2, fits, k2 in room(s, const(2)):
                s2 = s2.copy()
                j2, n2 = s2.spec.pop("AJ")
                add("resize_v", lb + ", to size+2, own element" + lr, s2, [L, n2 + k2, elem(pf, "l", j2, c)],
                    (V("A", 0, n2), C(("V", "A", j2), k2)), keep=fits and not N)
        if not N:
            s = st0.copy()
            k = count(s)
            s.misc["noeff"] = ("E.assign",)
            s.spec["mincap"] = k
            add("reserve", lb, s, [L, k], (V("A", 0, n),))
            if c is not None:
                s = st0.copy()
                k = count(s)
                if s.assume_ge(c - k):
                    add("reserve", lb + ", within the capacity", keepblock(s, c), [L, k], (V("A", 0, n),), keep=True)
        # positions
        pos = [("begin", ZERO, None), ("inside", sym("i"), "i"), ("end", n, None)]
        for pl, i, nm in pos:
            if pl != "begin" and n == ZERO:
                continue
            sp = st0.copy()
            if nm:
                if not (sp.assume_ge(i - 1) and sp.assume_ge(n - 1 - i)):
                    continue
                slots(sp, i)
            # insert
            def ins(op, s, k, mk, lab):
                s = s.copy()
                s.spec["~ii"] = (i, n)
                for lr, s2, fits, k2 in room(s, k):
                    s2 = s2.copy()
                    i2, n2 = s2.spec.pop("~ii")
                    args, item = mk(s2, i2, n2, k2)
                    add(op, "%s, at %s%s%s" % (lb, pl, lab, lr), s2, [L, elem(pf, "l", i2, c)] + args,
                        (V("A", 0, i2),) + (item if isinstance(item, list) and False else (item,)) + (V("A", i2, n2),),
                        keep=fits and not N, ret=i2)

            def mk1(s, i2, n2, k2):
                s.spec["vals"] = (("x", 0, X),)
                return [add_value(s, "x", X)], C(X)
            ins("insert", sp, ONE, mk1, "")

            def mkn(s, i2, n2, k2):
                s.spec["vals"] = (("x", 0, X),)
                return [k2, add_value(s, "x", X)], C(X, k2)
            s = sp.copy()
            k = count(s)
            ins("insert_n", s, k, mkn, "")

            def mkr(s, i2, n2, k2):
                return [aptr("argR", ZERO), aptr("argR", k2 * ESZ)], V("R", 0, k2)
            s = sp.copy()
            f, e, k = arg_range(s, "R")
            s.spec["vals"] = ()
            ins("insert_range", s, k, mkr, "")
            if n != ZERO:
                j = sym("ai")
                s = sp.copy()
                assert s.assume_ge(j) and s.assume_ge(n - 1 - j)
                slots(s, j)
                s.spec["AJ"] = j

                def mka(s, i2, n2, k2):
                    j2 = s.spec["AJ"]
                    return [elem(pf, "l", j2, c)], V("A", j2, j2 + 1)
                ins("insert", s, ONE, mka, ", own element")

                def mkan(s, i2, n2, k2):
                    j2 = s.spec["AJ"]
                    return [const(2), elem(pf, "l", j2, c)], C(("V", "A", j2), const(2))
                ins("insert_n", s, const(2), mkan, ", own element")
        # push_back
        for own in (0, 1):
            s = st0.copy()
            if own:
                if n == ZERO:
                    continue
                j = sym("ai")
                assert s.assume_ge(j) and s.assume_ge(n - 1 - j)
                slots(s, j)
                s.spec["AJ"] = (j, n)
            else:
                s.spec["AJ"] = (ZERO, n)
            for lr, s2, fits, k2 in room(s, ONE):
                s2 = s2.copy()
                j2, n2 = s2.spec.pop("AJ")
                if own:
                    p, item = elem(pf, "l", j2, c), V("A", j2, j2 + 1)
                else:
                    p, item = add_value(s2, "x", X), C(X)
                    s2.spec["vals"] = (("x", 0, X),)
                add("push_back", lb + (", own element" if own else "") + lr, s2, [L, p], (V("A", 0, n2), item), keep=fits and not N)
        # erase
        if n != ZERO:
            i, j = sym("i"), sym("j")
            for last in (0, 1):
                s = st0.copy()
                if not (s.assume_ge(i) and (s.assume_eq(n - 1 - i) if last else s.assume_ge(n - 2 - i))):
                    continue
                n2 = s.spec["P"][0]
                i2 = n2 - 1 if last else i
                c2 = s.spec["P"][1] if not N else c
                add("erase", lb + (", last" if last else ", not last"), keepblock(s, c), [L, elem(pf, "l", i2, c)],
                    (V("A", 0, i2), V("A", i2 + 1, n2)), keep=True, ret=i2)
        ends = [("empty range", None)] + ([("proper range", 1), ("up to the end", 2)] if n != ZERO else [])
        for el, kind in ends:
            s = st0.copy()
            i, j = sym("i"), sym("j")
            if n == ZERO:
                i = j = ZERO
            elif kind is None:
                s.assume_ge(i)
                s.assume_ge(n - i)
                slots(s, i)
                j = i
            elif kind == 1:
                s.assume_ge(i)
                s.assume_ge(j - i - 1)
                if not s.assume_ge(n - 1 - j):
                    continue
                slots(s, i, j)
            else:
                s.assume_ge(i)
                s.assume_ge(n - 1 - i)
                slots(s, i)
                j = n
            if kind is None and n != ZERO:
                s.spec["~e"] = i
            add("erase_range", lb + ", " + el, keepblock(s, c), [L, elem(pf, "l", i, c), elem(pf, "l", j, c)],
                (V("A", 0, i), V("A", j, n)), keep=True, ret=i)
        # observers
        def obs(op, args=(), idx=None, wret=None):
            s = st0.copy()
            s.misc["noeff"] = EOPS
            if wret is not None:
                s.spec["wret"] = wret
            add(op, lb, s, [L] + list(args), (V("A", 0, n),), ret=idx)
        for op in ("begin", "beginc", "cbegin", "data", "cdata"):
            obs(op, idx=ZERO)
        for op in ("end", "endc", "cend"):
            obs(op, idx=n)
        obs("size", wret=n)
        obs("empty", wret=("b", int(n == ZERO)))
        obs("capacity", wret=const(N) if N else (ZERO if c is None else c))
        if N:
            obs("full", wret=("b", int(n == const(N))))
            obs("max_size", wret=const(N))
        if n != ZERO:
            for op in ("front", "cfront"):
                obs(op, idx=ZERO)
            for op in ("back", "cback"):
                obs(op, idx=n - 1)
            for op in ("index", "cindex", "at", "cat"):
                i = sym("i")
                s = st0.copy()
                assert s.assume_ge(i) and s.assume_ge(n - 1 - i)
                slots(s, i)
                s.misc["noeff"] = EOPS
                add(op, lb, s, [L, i], (V("A", 0, n),), ret=i)
    return out
