"""ttl::list operations: pre-states over lists of every length, expected contents, identities and effects."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from cases import *

UNIT = "list.cpp"
NODES = {32: DLL}
X = ("t", "x")
EOPS = ("E.ctor", "E.copy", "E.dtor", "E.assign", "new", "delete")


def new_list(st, o, S, n):
    """container o with values S[0..n); n Lin or 0"""
    if isinstance(n, int) and n == 0:
        add_obj(st, o, 16, {0: obj(o), 8: obj(o)}, "cont")
    else:
        st.lay[S] = DLL
        st.chunks = st.chunks + (Seg(S, ZERO, n, 1, obj(o), obj(o), ((16, ("V", S, ZERO)),)),)
        add_obj(st, o, 16, {0: node(S, n - 1), 8: node(S, ZERO)}, "cont")


def lists(o, S, st=None):
    """[(label, state, n)] empty and non-empty list of every length"""
    out = []
    a = (st or State()).copy()
    new_list(a, o, S, 0)
    out.append((o + " empty", a, ZERO))
    b = (st or State()).copy()
    n = sym("n" + S)
    assert b.assume_ge(n - 1)
    new_list(b, o, S, n)
    slots(b, n)
    out.append((o + " of n>=1", b, n))
    return out


def cont(st, o, want, ids=None):
    st.spec["conts"] = st.spec.get("conts", ()) + ((o, "dll", 8, o),)
    st.spec["want:" + o] = tuple(want)
    if ids is not None:
        st.spec["ids:" + o] = tuple(ids)


def positions(st, o, S, n, name, lo=None):
    """[(label, state, index, pointer)] all positions of list o including the end"""
    out = [("end", st.copy(), n, obj(o))]
    if n != ZERO:
        i = sym(name)
        b = st.copy()
        if b.assume_ge(i - (lo if lo is not None else 0)) and b.assume_ge(n - 1 - i):
            slots(b, i)
            out.append(("element", b, i, node(S, i)))
    return out


def I(S, lo, hi, d=1):
    return V("&" + S, lo, hi, d)


NEWN = ("new",)


def cases():
    out = []

    def add(op, label, st, args, post=None):
        out.append(Case(op, label, st, args, post))

    # construction
    st = State()
    add_obj(st, "l", 16, {}, "cont")
    cont(st, "l", ())
    add("list_ctor", "default", st, [obj("l")])
    for lb, st, n in lists("o", "B"):
        add_obj(st, "l", 16, {}, "cont")
        cont(st, "l", (V("B", 0, n),), (C(NEWN, n),))
        cont(st, "o", (V("B", 0, n),), (I("B", 0, n),))
        add("list_ctor_copy", lb, st, [obj("l"), obj("o")])
    for c in ("n",):
        st = State()
        add_obj(st, "l", 16, {}, "cont")
        n = sym("cnt")
        st.assume_ge(n)
        slots(st, n)
        x = add_value(st, "x", X)
        st.spec["vals"] = (("x", 0, X),)
        cont(st, "l", (C(X, n),), (C(NEWN, n),))
        add("list_ctor_n", "n>=0 copies", st, [obj("l"), n, x])
    st = State()
    add_obj(st, "l", 16, {}, "cont")
    f, e, k = arg_range(st, "R")
    cont(st, "l", (V("R", 0, k),), (C(NEWN, k),))
    add("list_ctor_range", "range", st, [obj("l"), f, e])
    for lb, st, n in lists("l", "A"):
        st.spec["conts"] = ()
        add("list_dtor", lb, st, [obj("l")])
    # assignment
    for lb, st0, n in lists("l", "A"):
        for lb2, st, m in lists("o", "B", st0):
            s = st.copy()
            cont(s, "l", (V("B", 0, m),))
            cont(s, "o", (V("B", 0, m),), (I("B", 0, m),))
            add("list_assign_op", lb + ", " + lb2, s, [obj("l"), obj("o")])
        s = st0.copy()
        cont(s, "l", (V("A", 0, n),))
        add("list_assign_op", lb + ", self-assignment", s, [obj("l"), obj("l")])
        s = st0.copy()
        f, e, k = arg_range(s, "R")
        cont(s, "l", (V("R", 0, k),))
        add("list_assign_range", lb, s, [obj("l"), f, e])
        s = st0.copy()
        x = add_value(s, "x", X)
        c = sym("cnt")
        s.assume_ge(c)
        slots(s, c)
        cont(s, "l", (C(X, c),))
        add("list_assign_n", lb, s, [obj("l"), c, x])
    # push / pop
    for lb, st0, n in lists("l", "A"):
        s = st0.copy()
        x = add_value(s, "x", X)
        cont(s, "l", (C(X), V("A", 0, n)), (C(NEWN), I("A", 0, n)))
        add("list_push_front", lb, s, [obj("l"), x])
        s = st0.copy()
        x = add_value(s, "x", X)
        cont(s, "l", (V("A", 0, n), C(X)), (I("A", 0, n), C(NEWN)))
        add("list_push_back", lb, s, [obj("l"), x])
        if n != ZERO:
            s = st0.copy()
            i = sym("ai")
            assert s.assume_ge(i) and s.assume_ge(n - 1 - i)
            slots(s, i)
            s1 = s.copy()
            cont(s1, "l", (V("A", i, i + 1), V("A", 0, n)), (C(NEWN), I("A", 0, n)))
            add("list_push_front", lb + ", value is an element of the list", s1, [obj("l"), node("A", i, 16)])
            s1 = s.copy()
            cont(s1, "l", (V("A", 0, n), V("A", i, i + 1)), (I("A", 0, n), C(NEWN)))
            add("list_push_back", lb + ", value is an element of the list", s1, [obj("l"), node("A", i, 16)])
            s = st0.copy()
            cont(s, "l", (V("A", 1, n),), (I("A", 1, n),))
            add("list_pop_front", lb, s, [obj("l")])
            s = st0.copy()
            cont(s, "l", (V("A", 0, n - 1),), (I("A", 0, n - 1),))
            add("list_pop_back", lb, s, [obj("l")])
    # insert
    for lb, st0, n in lists("l", "A"):
        for pl, s0, i, p in positions(st0, "l", "A", n, "i"):
            s = s0.copy()
            x = add_value(s, "x", X)
            cp = add_ptr(s, "p", p)
            r = add_out(s, "r")
            s.spec["vals"] = (("x", 0, X),)
            cont(s, "l", (V("A", 0, i), C(X), V("A", i, n)), (I("A", 0, i), C(NEWN), I("A", i, n)))
            s.misc["newret"] = "r"
            add("list_insert", lb + ", before " + pl, s, [r, obj("l"), cp, x], post_newnode)
            if n != ZERO:
                s = s0.copy()
                j = sym("ai")
                assert s.assume_ge(j) and s.assume_ge(n - 1 - j)
                slots(s, j)
                cp = add_ptr(s, "p", p)
                r = add_out(s, "r")
                cont(s, "l", (V("A", 0, i), V("A", j, j + 1), V("A", i, n)), (I("A", 0, i), C(NEWN), I("A", i, n)))
                add("list_insert", lb + ", value is an element, before " + pl, s, [r, obj("l"), cp, node("A", j, 16)])
            s = s0.copy()
            x = add_value(s, "x", X)
            cp = add_ptr(s, "p", p)
            c = sym("cnt")
            s.assume_ge(c)
            slots(s, c)
            cont(s, "l", (V("A", 0, i), C(X, c), V("A", i, n)), (I("A", 0, i), C(NEWN, c), I("A", i, n)))
            add("list_insert_n", lb + ", before " + pl, s, [obj("l"), cp, c, x])
            if n != ZERO:
                s = s0.copy()
                j, c = sym("ai"), const(2)
                assert s.assume_ge(j) and s.assume_ge(n - 1 - j)
                slots(s, j)
                cp = add_ptr(s, "p", p)
                cont(s, "l", (V("A", 0, i), C(("V", "A", j), c), V("A", i, n)), (I("A", 0, i), C(NEWN, c), I("A", i, n)))
                add("list_insert_n", lb + ", value is an element, before " + pl, s, [obj("l"), cp, c, node("A", j, 16)])
            s = s0.copy()
            f, e, k = arg_range(s, "R")
            cp = add_ptr(s, "p", p)
            cont(s, "l", (V("A", 0, i), V("R", 0, k), V("A", i, n)), (I("A", 0, i), C(NEWN, k), I("A", i, n)))
            add("list_insert_range", lb + ", before " + pl, s, [obj("l"), cp, f, e])
    # erase
    for lb, st0, n in lists("l", "A"):
        for pl, s0, i, p in positions(st0, "l", "A", n, "i"):
            if pl != "end":
                # successor is the next element or the end
                for nl in ("last", "inner"):
                    s = s0.copy()
                    if nl == "last":
                        if not s.assume_eq(n - 1 - i):
                            continue
                        nn = s.spec["P"]
                        ii, nn = s.spec["P"][1], s.spec["P"][0]
                        succ = obj("l")
                    else:
                        if not s.assume_ge(n - 2 - i):
                            continue
                        ii, nn = i, n
                        succ = node("A", i + 1)
                    cp = add_ptr(s, "p", node("A", ii))
                    r = add_out(s, "r")
                    s.spec["out"] = (("r", 0, succ),)
                    cont(s, "l", (V("A", 0, ii), V("A", ii + 1, nn)), (I("A", 0, ii), I("A", ii + 1, nn)))
                    add("list_erase", lb + ", " + nl, s, [r, obj("l"), cp])
            for ql, s1, j, q in positions(s0, "l", "A", n, "j", lo=i):
                if pl == "end" and ql != "end":
                    continue
                s = s1.copy()
                cp = add_ptr(s, "p", p)
                cq = add_ptr(s, "q", q)
                r = add_out(s, "r")
                s.spec["out"] = (("r", 0, q),)
                cont(s, "l", (V("A", 0, i), V("A", j, n)), (I("A", 0, i), I("A", j, n)))
                if ql != "end" or pl != "end":
                    # recorded finding: the last element of the range is left in the list
                    s.spec["alt:want:l"] = (V("A", 0, i), V("A", j - 1, n))
                    s.spec["alt:ids:l"] = (I("A", 0, i), I("A", j - 1, n))
                    s.misc["known"] = "list-erase-range-last"
                add("list_erase_range", lb + ", from %s to %s" % (pl, ql), s, [r, obj("l"), cp, cq])
    # splice
    for lb, st0, n in lists("l", "A"):
        for pl, s0, i, p in positions(st0, "l", "A", n, "i"):
            for lb2, s1, m in lists("o", "B", s0):
                s = s1.copy()
                cp = add_ptr(s, "p", p)
                cont(s, "l", (V("A", 0, i), V("B", 0, m), V("A", i, n)), (I("A", 0, i), I("B", 0, m), I("A", i, n)))
                cont(s, "o", (), ())
                s.misc["noeff"] = EOPS
                add("list_splice", "%s, before %s, %s" % (lb, pl, lb2), s, [obj("l"), cp, obj("o")])
                if m != ZERO:
                    j = sym("j")
                    s = s1.copy()
                    assert s.assume_ge(j) and s.assume_ge(m - 1 - j)
                    slots(s, j)
                    cp = add_ptr(s, "p", p)
                    ci = add_ptr(s, "q", node("B", j))
                    cont(s, "l", (V("A", 0, i), V("B", j, j + 1), V("A", i, n)), (I("A", 0, i), I("B", j, j + 1), I("A", i, n)))
                    cont(s, "o", (V("B", 0, j), V("B", j + 1, m)), (I("B", 0, j), I("B", j + 1, m)))
                    s.misc["noeff"] = EOPS
                    add("list_splice_one", "%s, before %s, %s" % (lb, pl, lb2), s, [obj("l"), cp, obj("o"), ci])
                for fl, s2, a, fp in positions(s1, "o", "B", m, "f"):
                    for el, s3, b, ep in positions(s2, "o", "B", m, "e", lo=a):
                        if fl == "end" and el != "end":
                            continue
                        s = s3.copy()
                        cp = add_ptr(s, "p", p)
                        cf = add_ptr(s, "q", fp)
                        ce = add_ptr(s, "q2", ep)
                        cont(s, "l", (V("A", 0, i), V("B", a, b), V("A", i, n)), (I("A", 0, i), I("B", a, b), I("A", i, n)))
                        cont(s, "o", (V("B", 0, a), V("B", b, m)), (I("B", 0, a), I("B", b, m)))
                        s.misc["noeff"] = EOPS
                        add("list_splice_range", "%s, before %s, %s, range %s to %s" % (lb, pl, lb2, fl, el), s,
                            [obj("l"), cp, obj("o"), cf, ce])
            # within one list
            if n != ZERO:
                for fl, s2, a, fp in positions(s0, "l", "A", n, "f"):
                    if fl == "end":
                        continue
                    # single element a moved before i, a != i
                    for side in ("before", "after", "same"):
                        s = s2.copy()
                        if side == "before":
                            ok = s.assume_ge(i - a - 1)
                            w = lambda: (V("A", 0, a), V("A", a + 1, i), V("A", a, a + 1), V("A", i, n))
                        elif side == "after":
                            ok = pl != "end" and s.assume_ge(a - i - 1)
                            w = lambda: (V("A", 0, i), V("A", a, a + 1), V("A", i, a), V("A", a + 1, n))
                        else:
                            ok = pl != "end" and s.assume_eq(a - i)
                            w = lambda: (V("A", 0, n),)
                        if not ok:
                            continue
                        s.spec["~x"] = (w(), tuple(("V", "&A", x[2], x[3], x[4]) for x in w()), p, fp)
                        s.maplins(lambda l: l)
                        if side == "same":
                            # i and a were unified: rebuild from the substituted slots
                            nn = s.spec["P"][0]
                            ww = (V("A", 0, nn),)
                            fp2 = node("A", s.spec["P"][-1])
                            pp2 = fp2
                        else:
                            ww, fp2, pp2 = w(), fp, p
                        s.spec.pop("~x")
                        cp = add_ptr(s, "p", pp2)
                        cf = add_ptr(s, "q", fp2)
                        cont(s, "l", ww, tuple(("V", "&A", x[2], x[3], x[4]) for x in ww))
                        s.misc["noeff"] = EOPS
                        add("list_splice_one", "%s within itself, before %s, element %s it" % (lb, pl, side), s,
                            [obj("l"), cp, obj("l"), cf])
    # swap
    for lb, st0, n in lists("l", "A"):
        for lb2, s1, m in lists("o", "B", st0):
            s = s1.copy()
            cont(s, "l", (V("B", 0, m),), (I("B", 0, m),))
            cont(s, "o", (V("A", 0, n),), (I("A", 0, n),))
            s.misc["noeff"] = EOPS
            add("list_swap", lb + ", " + lb2, s, [obj("l"), obj("o")])
        s = st0.copy()
        cont(s, "l", (V("A", 0, n),), (I("A", 0, n),))
        s.misc["noeff"] = EOPS
        add("list_swap", lb + " with itself", s, [obj("l"), obj("l")])
        s = st0.copy()
        cont(s, "l", (V("A", 0, n, -1),), (I("A", 0, n, -1),))
        s.misc["noeff"] = EOPS
        add("list_reverse", lb, s, [obj("l")])
        s = st0.copy()
        cont(s, "l", ())
        add("list_clear", lb, s, [obj("l")])
        for op, tok in (("list_resize", ("def",)), ("list_resize_v", X)):
            k = sym("k")
            s = st0.copy()
            if s.assume_ge(n - k) and s.assume_ge(k):
                args = [obj("l"), s.spec["P"][0] if False else k]
                slots(s, k)
                if n == ZERO:
                    s = st0.copy()
                    args[1] = ZERO
                    kk = ZERO
                else:
                    kk = k
                if op == "list_resize_v":
                    args.append(add_value(s, "x", X))
                cont(s, "l", (V("A", 0, kk),), (I("A", 0, kk),))
                add(op, lb + ", to k<=size", s, args)
            s = st0.copy()
            if s.assume_ge(k - n - 1):
                slots(s, k)
                args = [obj("l"), k]
                if op == "list_resize_v":
                    args.append(add_value(s, "x", X))
                cont(s, "l", (V("A", 0, n), C(tok, k - n)), (I("A", 0, n), C(NEWN, k - n)))
                add(op, lb + ", to k>size", s, args)
                if op == "list_resize_v" and n != ZERO:
                    s = st0.copy()
                    j = sym("ai")
                    assert s.assume_ge(j) and s.assume_ge(n - 1 - j)
                    slots(s, j)
                    cont(s, "l", (V("A", 0, n), C(("V", "A", j), const(2))), (I("A", 0, n), C(NEWN, const(2))))
                    add(op, lb + ", to size+2, value is an element", s, [obj("l"), n + 2, node("A", j, 16)])
    # observers
    for lb, st0, n in lists("l", "A"):
        def obs(op, wret, st=st0, args=None, extra=None):
            s = st.copy()
            cont(s, "l", (V("A", 0, n),), (I("A", 0, n),))
            s.spec["wret"] = wret
            s.misc["noeff"] = EOPS
            add(op, lb + (extra or ""), s, args or [obj("l")])
        obs("list_size", n)
        obs("list_empty", ("b", 1 if n == ZERO else 0))
        first = obj("l") if n == ZERO else node("A", ZERO)
        for op in ("list_begin", "list_cbegin", "list_beginc"):
            s = st0.copy()
            r = add_out(s, "r")
            s.spec["out"] = (("r", 0, first),)
            cont(s, "l", (V("A", 0, n),), (I("A", 0, n),))
            add(op, lb, s, [r, obj("l")])
        for op in ("list_end", "list_cend", "list_endc"):
            s = st0.copy()
            r = add_out(s, "r")
            s.spec["out"] = (("r", 0, obj("l")),)
            cont(s, "l", (V("A", 0, n),), (I("A", 0, n),))
            add(op, lb, s, [r, obj("l")])
        if n != ZERO:
            for op in ("list_front", "list_cfront"):
                obs(op, node("A", ZERO, 16))
            for op in ("list_back", "list_cback"):
                obs(op, node("A", n - 1, 16))
            i = sym("i")
            # iterator steps
            for pre in ("list_it_", "list_cit_"):
                for op, back in (("inc", 0), ("pinc", 0), ("dec", 1), ("pdec", 1)):
                    for edge in (0, 1):
                        s = st0.copy()
                        assert s.assume_ge(i) and s.assume_ge(n - 1 - i)
                        if back:
                            if edge:
                                # --end
                                src, dst = obj("l"), node("A", n - 1)
                            else:
                                if not s.assume_ge(i - 1):
                                    continue
                                src, dst = node("A", i), node("A", i - 1)
                        else:
                            if edge:
                                src, dst = node("A", n - 1), obj("l")
                            else:
                                if not s.assume_ge(n - 2 - i):
                                    continue
                                src, dst = node("A", i), node("A", i + 1)
                        slots(s, i)
                        it = add_ptr(s, "it", src)
                        r = add_out(s, "r")
                        s.spec["out"] = (("it", 0, dst), ("r", 0, dst if op[0] != "p" else src))
                        cont(s, "l", (V("A", 0, n),), (I("A", 0, n),))
                        s.misc["noeff"] = EOPS
                        add(pre + op, lb + (" at the edge" if edge else ""), s, [r, it])
                for op in ("deref", "arrow"):
                    s = st0.copy()
                    assert s.assume_ge(i) and s.assume_ge(n - 1 - i)
                    slots(s, i)
                    it = add_ptr(s, "it", node("A", i))
                    s.spec["wret"] = node("A", i, 16)
                    cont(s, "l", (V("A", 0, n),), (I("A", 0, n),))
                    add(pre + op, lb, s, [it])
    # iterator comparison
    for op, eq in (("it_eq", 1), ("it_ne", 0), ("it_eqc", 1), ("it_nec", 0), ("cit_eq", 1), ("cit_ne", 0), ("cit_eqi", 1), ("cit_nei", 0)):
        for same in (0, 1):
            for end in (0, 1):
                s = State()
                n, i, j = sym("nA"), sym("i"), sym("j")
                s.assume_ge(n - 1)
                new_list(s, "l", "A", n)
                s.assume_ge(i)
                s.assume_ge(n - 1 - i)
                if not same and not end:
                    s.assume_ge(j - i - 1)
                    s.assume_ge(n - 1 - j)
                slots(s, n, i, j)
                p = obj("l") if end and same else node("A", i)
                a = add_ptr(s, "a", p)
                b = add_ptr(s, "b", p if same else obj("l") if end else node("A", j))
                s.spec["wret"] = ("b", int(same == eq))
                cont(s, "l", (V("A", 0, n),), (I("A", 0, n),))
                s.misc["noeff"] = EOPS
                add("list_" + op, ("same position" if same else "different positions") + (" (end)" if end else ""), s, [a, b])
    # removal by predicate, unique, merge, comparison
    K = 4
    for lb, st0, n in lists("l", "A"):
        for op, pred in (("list_remove_if", "P1"), ("list_remove", "eq"), ("list_unique", "uniq"), ("list_unique_p", "P2")):
            s = st0.copy()
            args = [obj("l")]
            if n == ZERO:
                slots(s, ZERO)
            cont(s, "l", ())
            if op == "list_remove_if":
                p = lambda eng, st, i, kept: known_pred(st, eng, "P1", ("V", "A", const(i)))
            elif op == "list_remove":
                args.append(add_value(s, "x", X))
                s.spec["vals"] = (("x", 0, X),)
                p = lambda eng, st, i, kept: known_pred(st, eng, "eq", ("V", "A", const(i)), X, True)
            else:
                q = "eq" if op == "list_unique" else "P2"
                p = lambda eng, st, i, kept, q=q: 0 if not kept else \
                    known_pred(st, eng, q, ("V", "A", const(i)), ("V", "A", const(kept[-1])), True)
            out.append(Case(op, lb, s, args, filtered("l", "A", p, 0), kexact=K, cut=True))
            if op == "list_remove" and n != ZERO:
                s = st0.copy()
                j = sym("j")
                s.assume_ge(j)
                s.assume_ge(n - 1 - j)
                slots(s, j)
                cont(s, "l", ())
                p = lambda eng, st, i, kept: known_pred(st, eng, "eq", ("V", "A", const(i)), ("V", "A", st.spec["P"][1]), True)
                out.append(Case(op, lb + ", value is an element of the list", s, [obj("l"), node("A", j, 16)],
                                filtered("l", "A", p, 0), kexact=K, cut=True))
        for lb2, s1, m in lists("o", "B", st0):
            for op, pred in (("list_merge", "lt"), ("list_merge_c", "P2")):
                s = s1.copy()
                s.spec["P"] = (n, m)
                s.facts = tuple(sorted_fact(S, k, pred) for S, k in (("A", n), ("B", m)) if k != ZERO)
                cont(s, "l", ())
                cont(s, "o", ())
                s.misc["noeff"] = EOPS
                out.append(Case(op, lb + ", " + lb2, s, [obj("l"), obj("o")], merge_post("l", "o", "A", "B", pred),
                                kexact=K, cut=True, order=(pred,)))
            for op, w in (("list_eq", 1), ("list_ne", 0)):
                s = s1.copy()
                s.spec["LA"], s.spec["LB"] = n, m
                cont(s, "l", (V("A", 0, n),), (I("A", 0, n),))
                cont(s, "o", (V("B", 0, m),), (I("B", 0, m),))
                s.misc["noeff"] = EOPS
                out.append(Case(op, lb + ", " + lb2, s, [obj("l"), obj("o")], eq_post("A", "B", n, m, w)))
        for op, pred in (("list_merge", "lt"), ("list_merge_c", "P2")):
            s = st0.copy()
            if n != ZERO:
                s.facts = (sorted_fact("A", n, pred),)
            cont(s, "l", (V("A", 0, n),), (I("A", 0, n),))
            s.misc["noeff"] = EOPS
            out.append(Case(op, lb + " with itself", s, [obj("l"), obj("l")], None, kexact=K, cut=True, order=(pred,)))
    return out


def arg_range(st, R, name=None):
    """constant input range R[0..k) of elements; returns (first, last, k)"""
    k = sym("k" + R)
    st.assume_ge(k)
    slots(st, k)
    A = "arg" + R
    st.arrs[A] = Arr(16, k, True, "E", ((ZERO, k, ("V", R, ZERO)),))
    return aptr(A, ZERO), aptr(A, k * 16), k


def post_newnode(eng, st):
    """generic + the returned iterator designates the (single) new node"""
    for s, v in generic_post(eng, st):
        if v:
            yield s, v
            continue
        got = obj_field(s, "r", 0)
        ok = got != UNDEF and got[0] == "p" and got[1] is not None and got[1][0] == "n" and got[1][1].startswith("N") \
            and got[2] == ZERO
        yield s, None if ok else ("iterator", "returned iterator is %s, not the new element" % show(got))
