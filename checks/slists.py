"""forward_list, backward_list, lazy_queue: chains of every length, tails, pools."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from cases import *
from lists import X, EOPS, I, NEWN, arg_range, post_newnode

UNIT = "slists.cpp"
NODES = {24: SLL}
SIZES = {"fl_sizeof": 8, "bl_sizeof": 16, "lq_sizeof": 24}
SZ = {"fl": 8, "bl": 16, "lq": 24}
RAWN = lambda n: ("raw", None, n)


def mk(st, pf, o, S, n, d=None, D=None):
    """container o of class pf; chain S[0..n) (n Lin>=1 or ZERO); lazy_queue pool D[0..d)"""
    f = {}
    if n == ZERO:
        f[0] = NULL
        if pf != "fl":
            f[8] = obj(o)
    else:
        st.lay[S] = SLL
        st.chunks = st.chunks + (Seg(S, ZERO, n, 1, None, NULL, ((8, ("V", S, ZERO)),)),)
        f[0] = node(S, ZERO)
        if pf != "fl":
            f[8] = node(S, n - 1)
    if pf == "lq":
        if d is None or d == ZERO:
            f[16] = NULL
        else:
            st.lay[D] = SLL
            st.chunks = st.chunks + (Seg(D, ZERO, d, 1, None, NULL, ((8, RAW),)),)
            f[16] = node(D, ZERO)
    add_obj(st, o, SZ[pf], f, "cont")


def pools(pf, st0, o, S, n, D):
    """[(label, state, d)]"""
    if pf != "lq":
        a = st0.copy()
        mk(a, pf, o, S, n)
        return [("", a, ZERO)]
    a = st0.copy()
    mk(a, pf, o, S, n, ZERO)
    b = st0.copy()
    d = sym("d" + D)
    assert b.assume_ge(d - 1)
    b.spec["D" + D] = d
    mk(b, pf, o, S, n, d, D)
    return [(", pool empty", a, ZERO), (", pool of d>=1", b, d)]


def conts_(pf, o, S, D, st=None):
    """[(label, state, n, d)]"""
    out = []
    for lb, n in ((o + " empty", ZERO), (o + " of n>=1", sym("n" + S))):
        a = (st or State()).copy()
        if n != ZERO:
            assert a.assume_ge(n - 1)
            slots(a, n)
        for lp, b, d in pools(pf, a, o, S, n, D):
            out.append((lb + lp, b, n, d))
    return out


def cont(pf, st, o, want, ids=None, dead=None):
    st.spec["conts"] = st.spec.get("conts", ()) + ((o, "sll", 0, o),)
    st.spec["want:" + o] = tuple(want)
    if ids is not None:
        st.spec["ids:" + o] = tuple(ids)
    if pf != "fl":
        st.spec["tailoff:" + o] = 8
    if pf == "lq":
        st.spec["conts"] = st.spec["conts"] + ((o + ".dead", "sll", 16, o),)
        if dead is not None:
            st.spec["want:" + o + ".dead"] = (RAWN(dead),)


def befores(st, o, S, n, name, need=0):
    """[(label, state, index of the first element after pos, pointer)]: before_begin and every element with at least
    `need` successors"""
    out = []
    if need == 0 or (n != ZERO):
        a = st.copy()
        if need == 0 or a.assume_ge(n - need):
            out.append(("before_begin", a, ZERO, obj(o)))
    if n != ZERO:
        i = sym(name)
        b = st.copy()
        if b.assume_ge(i) and b.assume_ge(n - 1 - need - i):
            slots(b, i)
            out.append(("element", b, i + 1, node(S, i)))
    return out


def cases():
    out = []
    for pf in ("fl", "bl", "lq"):
        out += cases_of(pf)
    return out


def uninit(st, pf, o):
    add_obj(st, o, SZ[pf], {}, "cont")


def effpool(st, grow):
    """an insertion that finds enough pooled nodes performs no allocation"""
    if grow == 0:
        st.misc["noeff"] = ("new", "delete")


def cases_of(pf):
    out = []

    def add(op, label, st, args, post=None, **kw):
        out.append(Case(pf + "_" + op, label, st, args, post, **kw))

    def grown(st0, d, k):
        """split a pre-state by whether the pool covers k insertions: [(label, state, d, remaining, new)]"""
        if pf != "lq":
            return [("", st0.copy(), d, ZERO)]
        r = []
        a = st0.copy()
        a.spec["~r"] = d - k
        if a.assume_ge(d - k):
            a.misc["noeff"] = ("new",)
            r.append((", pool suffices", a, d, a.spec.pop("~r")))
        b = st0.copy()
        if b.assume_ge(k - d - 1):
            r.append((", pool exhausted", b, d, ZERO))
        return r

    st = State()
    uninit(st, pf, "l")
    cont(pf, st, "l", (), (), ZERO)
    add("ctor", "default", st, [obj("l")])
    for lb, st, n, d in conts_(pf, "o", "B", "DB"):
        uninit(st, pf, "l")
        cont(pf, st, "l", (V("B", 0, n),), (C(NEWN, n),), ZERO)
        cont(pf, st, "o", (V("B", 0, n),), (I("B", 0, n),), d)
        add("ctor_copy", lb, st, [obj("l"), obj("o")])
    st = State()
    uninit(st, pf, "l")
    n = sym("cnt")
    st.assume_ge(n)
    slots(st, n)
    x = add_value(st, "x", X)
    cont(pf, st, "l", (C(X, n),), (C(NEWN, n),), ZERO)
    add("ctor_n", "n>=0 copies", st, [obj("l"), n, x])
    if pf != "lq":
        st = State()
        uninit(st, pf, "l")
        f, e, k = arg_range(st, "R")
        cont(pf, st, "l", (V("R", 0, k),), (C(NEWN, k),), ZERO)
        add("ctor_range", "range", st, [obj("l"), f, e])
    for lb, st0, n, d in conts_(pf, "l", "A", "DA"):
        L = [obj("l")]
        s = st0.copy()
        add("dtor", lb, s, L)
        # assignment
        for lb2, st, m, d2 in conts_(pf, "o", "B", "DB", st0):
            s = st.copy()
            cont(pf, s, "l", (V("B", 0, m),))
            cont(pf, s, "o", (V("B", 0, m),), (I("B", 0, m),), d2)
            add("assign_op", lb + ", " + lb2, s, [obj("l"), obj("o")])
            s = st.copy()
            cont(pf, s, "l", (V("B", 0, m),), (I("B", 0, m),))
            cont(pf, s, "o", (V("A", 0, n),), (I("A", 0, n),))
            s.misc["noeff"] = EOPS
            add("swap", lb + ", " + lb2, s, [obj("l"), obj("o")])
            if pf != "lq":
                for op, w in (("eq", 1), ("ne", 0)):
                    s = st.copy()
                    s.spec["LA"], s.spec["LB"] = n, m
                    cont(pf, s, "l", (V("A", 0, n),), (I("A", 0, n),))
                    cont(pf, s, "o", (V("B", 0, m),), (I("B", 0, m),))
                    s.misc["noeff"] = EOPS
                    add(op, lb + ", " + lb2, s, [obj("l"), obj("o")], eq_post("A", "B", n, m, w))
        for op in ("assign_op", "swap"):
            s = st0.copy()
            cont(pf, s, "l", (V("A", 0, n),), None, d)
            add(op, lb + ", with itself", s, [obj("l"), obj("l")])
        if pf != "lq":
            s = st0.copy()
            f, e, k = arg_range(s, "R")
            cont(pf, s, "l", (V("R", 0, k),))
            add("assign_range", lb, s, [obj("l"), f, e])
            s = st0.copy()
            x = add_value(s, "x", X)
            c = sym("cnt")
            s.assume_ge(c)
            slots(s, c)
            cont(pf, s, "l", (C(X, c),))
            add("assign_n", lb, s, [obj("l"), c, x])
            s = st0.copy()
            cont(pf, s, "l", (V("A", 0, n, -1),), (I("A", 0, n, -1),))
            s.misc["noeff"] = EOPS
            add("reverse", lb, s, L)
        # push / pop
        for gl, s0, d1, rest in grown(st0, d, ONE):
            for op in ("push_front", "push_back"):
                if op == "push_back" and pf == "fl":
                    continue
                s = s0.copy()
                x = add_value(s, "x", X)
                s.spec["vals"] = (("x", 0, X),)
                w = (C(X), V("A", 0, n)) if op == "push_front" else (V("A", 0, n), C(X))
                idw = (C(NEWN), I("A", 0, n)) if op == "push_front" else (I("A", 0, n), C(NEWN))
                cont(pf, s, "l", w, None if pf == "lq" else idw, rest)
                add(op, lb + gl, s, [obj("l"), x])
                if n != ZERO:
                    s = s0.copy()
                    i = sym("ai")
                    assert s.assume_ge(i) and s.assume_ge(n - 1 - i)
                    slots(s, i)
                    y = V("A", i, i + 1)
                    w = (y, V("A", 0, n)) if op == "push_front" else (V("A", 0, n), y)
                    cont(pf, s, "l", w, None if pf == "lq" else idw, rest)
                    add(op, lb + gl + ", value is an element", s, [obj("l"), node("A", i, 8)])
        if n != ZERO:
            s = st0.copy()
            cont(pf, s, "l", (V("A", 1, n),), (I("A", 1, n),), d + 1)
            if pf == "lq":
                s.misc["noeff"] = ("new", "delete")
            add("pop_front", lb, s, L)
        s = st0.copy()
        cont(pf, s, "l", (), (), d + n)
        if pf == "lq":
            s.misc["noeff"] = ("new", "delete")
        add("clear", lb, s, L)
        if pf == "lq":
            s = st0.copy()
            cont(pf, s, "l", (V("A", 0, n),), (I("A", 0, n),), ZERO)
            s.misc["noeff"] = ("new", "E.dtor", "E.copy", "E.ctor", "E.assign")
            add("cleanup", lb, s, L)
            s = st0.copy()
            if n == ZERO:
                cont(pf, s, "l", (), (), d)
            else:
                cont(pf, s, "l", (V("A", 1, n), V("A", 0, 1)), (I("A", 1, n), I("A", 0, 1)), d)
            s.misc["noeff"] = EOPS
            add("roll_head", lb, s, L)
        # insert
        for pl, sp, i, p in befores(st0, "l", "A", n, "i"):
            for gl, s0, d1, rest in grown(sp, d, ONE):
                s = s0.copy()
                x = add_value(s, "x", X)
                cp = add_ptr(s, "p", p)
                r = add_out(s, "r")
                cont(pf, s, "l", (V("A", 0, i), C(X), V("A", i, n)), None if pf == "lq" else (I("A", 0, i), C(NEWN), I("A", i, n)), rest)
                add("insert", "%s%s, after %s" % (lb, gl, pl), s, [r, obj("l"), cp, x],
                    post_newnode if pf != "lq" else post_lqnew)
                if n != ZERO:
                    s = s0.copy()
                    j = sym("ai")
                    assert s.assume_ge(j) and s.assume_ge(n - 1 - j)
                    slots(s, j)
                    cp = add_ptr(s, "p", p)
                    r = add_out(s, "r")
                    cont(pf, s, "l", (V("A", 0, i), V("A", j, j + 1), V("A", i, n)), None, rest)
                    add("insert", "%s%s, value is an element, after %s" % (lb, gl, pl), s, [r, obj("l"), cp, node("A", j, 8)])
            c = sym("cnt")
            s1 = sp.copy()
            s1.assume_ge(c)
            slots(s1, c)
            s1.spec["ARG"] = (c,)
            for gl, s0, d1, rest in grown(s1, d, c):
                s = s0.copy()
                c, = s.spec.pop("ARG")
                x = add_value(s, "x", X)
                cp = add_ptr(s, "p", p)
                cont(pf, s, "l", (V("A", 0, i), C(X, c), V("A", i, n)), None if pf == "lq" else (I("A", 0, i), C(NEWN, c), I("A", i, n)), rest)
                add("insert_n", "%s%s, after %s" % (lb, gl, pl), s, [obj("l"), cp, c, x])
            for gl, s0, d1, rest in grown(sp, d, const(2)) if n != ZERO else ():
                s = s0.copy()
                j, c = sym("ai"), const(2)
                assert s.assume_ge(j) and s.assume_ge(n - 1 - j)
                slots(s, j)
                cp = add_ptr(s, "p", p)
                cont(pf, s, "l", (V("A", 0, i), C(("V", "A", j), c), V("A", i, n)), None, rest)
                add("insert_n", "%s%s, value is an element, after %s" % (lb, gl, pl), s, [obj("l"), cp, c, node("A", j, 8)])
            s1 = sp.copy()
            f, e, k = arg_range(s1, "R")
            s1.spec["ARG"] = (f, e, k)
            for gl, s0, d1, rest in grown(s1, d, k):
                s = s0.copy()
                f, e, k = s.spec.pop("ARG")
                cp = add_ptr(s, "p", p)
                cont(pf, s, "l", (V("A", 0, i), V("R", 0, k), V("A", i, n)), None if pf == "lq" else (I("A", 0, i), C(NEWN, k), I("A", i, n)), rest)
                add("insert_range", "%s%s, after %s" % (lb, gl, pl), s, [obj("l"), cp, f, e])
        # erase
        for pl, sp, i, p in befores(st0, "l", "A", n, "i", 1):
            # element i goes; its successor is i+1 or the end
            for last in (0, 1):
                s = sp.copy()
                if last:
                    if not s.assume_eq(n - 1 - i):
                        continue
                    nn = s.spec["P"][0]
                    ii = nn - 1
                    pp = p if p == obj("l") else node("A", nn - 2)
                    succ = NULL
                else:
                    if not s.assume_ge(n - 2 - i):
                        continue
                    nn, ii, pp, succ = n, i, p, node("A", i + 1)
                cp = add_ptr(s, "p", pp)
                r = add_out(s, "r")
                s.spec["out"] = (("r", 0, succ),)
                cont(pf, s, "l", (V("A", 0, ii), V("A", ii + 1, nn)), (I("A", 0, ii), I("A", ii + 1, nn)), d + 1)
                if pf == "lq":
                    s.misc["noeff"] = ("new", "delete")
                add("erase", "%s, after %s%s" % (lb, pl, ", last" if last else ""), s, [r, obj("l"), cp])
        for pl, sp, i, p in befores(st0, "l", "A", n, "i"):
            # (pos, last): elements i..j-1 go
            ends = [("end", sp.copy(), n, NULL)]
            if n != ZERO:
                j = sym("j")
                b = sp.copy()
                if b.assume_ge(j - i) and b.assume_ge(n - 1 - j):
                    slots(b, j)
                    ends.append(("element", b, j, node("A", j)))
            for ql, s1, j, q in ends:
                s = s1.copy()
                cp = add_ptr(s, "p", p)
                cq = add_ptr(s, "q", q)
                r = add_out(s, "r")
                s.spec["out"] = (("r", 0, q),)
                cont(pf, s, "l", (V("A", 0, i), V("A", j, n)), (I("A", 0, i), I("A", j, n)), d + j - i)
                if pf == "lq":
                    s.misc["noeff"] = ("new", "delete")
                add("erase_range", "%s, after %s up to %s" % (lb, pl, ql), s, [r, obj("l"), cp, cq])
                if pf == "fl":
                    pass
        # splice (forward_list only)
        if pf == "fl":
            for pl, sp, i, p in befores(st0, "l", "A", n, "i"):
                for lb2, st, m, d2 in conts_(pf, "o", "B", "DB", sp):
                    s = st.copy()
                    cp = add_ptr(s, "p", p)
                    cont(pf, s, "l", (V("A", 0, i), V("B", 0, m), V("A", i, n)), (I("A", 0, i), I("B", 0, m), I("A", i, n)))
                    cont(pf, s, "o", (), ())
                    s.misc["noeff"] = EOPS
                    add("splice", "%s, after %s, %s" % (lb, pl, lb2), s, [obj("l"), cp, obj("o")])
                    for fl, s2, a, fp in befores(st, "o", "B", m, "f", 1):
                        s = s2.copy()
                        cp = add_ptr(s, "p", p)
                        cq = add_ptr(s, "q", fp)
                        cont(pf, s, "l", (V("A", 0, i), V("B", a, a + 1), V("A", i, n)), (I("A", 0, i), I("B", a, a + 1), I("A", i, n)))
                        cont(pf, s, "o", (V("B", 0, a), V("B", a + 1, m)), (I("B", 0, a), I("B", a + 1, m)))
                        s.misc["noeff"] = EOPS
                        add("splice_one", "%s, after %s, %s, element after %s" % (lb, pl, lb2, fl), s, [obj("l"), cp, obj("o"), cq])
                    for fl, s2, a, fp in befores(st, "o", "B", m, "f"):
                        ends = [("end", s2.copy(), m, NULL)]
                        if m != ZERO:
                            b = sym("e")
                            s3 = s2.copy()
                            if s3.assume_ge(b - a) and s3.assume_ge(m - 1 - b):
                                slots(s3, b)
                                ends.append(("element", s3, b, node("B", b)))
                        for el, s3, b, ep in ends:
                            s = s3.copy()
                            cp = add_ptr(s, "p", p)
                            cq = add_ptr(s, "q", fp)
                            ce = add_ptr(s, "q2", ep)
                            cont(pf, s, "l", (V("A", 0, i), V("B", a, b), V("A", i, n)), (I("A", 0, i), I("B", a, b), I("A", i, n)))
                            cont(pf, s, "o", (V("B", 0, a), V("B", b, m)), (I("B", 0, a), I("B", b, m)))
                            s.misc["noeff"] = EOPS
                            add("splice_range", "%s, after %s, %s, after %s to %s" % (lb, pl, lb2, fl, el), s,
                                [obj("l"), cp, obj("o"), cq, ce])
                # within itself: move the element after fp to after p
                for fl, s2, a, fp in befores(sp, "l", "A", n, "f", 1):
                    for side in ("before", "after", "same", "own"):
                        s = s2.copy()
                        # element a is moved so that it precedes element i
                        if side == "before":       # a+1 < i
                            if not s.assume_ge(i - a - 2):
                                continue
                            w = (V("A", 0, a), V("A", a + 1, i), V("A", a, a + 1), V("A", i, n))
                            pp, ff, nn = p, fp, n
                        elif side == "after":      # a > i
                            if not s.assume_ge(a - i - 1):
                                continue
                            w = (V("A", 0, i), V("A", a, a + 1), V("A", i, a), V("A", a + 1, n))
                            pp, ff = p, fp
                        else:
                            # pos == it ("same") or pos == the element itself ("own"): nothing moves
                            if side == "same":
                                if pl != fl:
                                    continue
                                w = (V("A", 0, n),)
                                pp, ff = p, p
                                s = sp.copy()
                            else:
                                if pl != "element":
                                    continue
                                w = (V("A", 0, n),)
                                s = sp.copy()
                                if fl == "before_begin":
                                    if not s.assume_eq(i - 1):
                                        continue
                                    pp, ff = node("A", ZERO), obj("l")
                                else:
                                    if not s.assume_ge(i - 2):
                                        continue
                                    pp, ff = node("A", i - 1), node("A", i - 2)
                        cp = add_ptr(s, "p", pp)
                        cq = add_ptr(s, "q", ff)
                        cont(pf, s, "l", w, tuple(("V", "&A", x[2], x[3], x[4]) for x in w))
                        s.misc["noeff"] = EOPS
                        add("splice_one", "%s within itself, after %s, element after %s (%s)" % (lb, pl, fl, side), s,
                            [obj("l"), cp, obj("l"), cq])
        # observers
        def obs(op, wret=None, outp=None, cond=True):
            s = st0.copy()
            args = [obj("l")]
            if outp is not None:
                args = [add_out(s, "r"), obj("l")]
                s.spec["out"] = (("r", 0, outp),)
            if wret is not None:
                s.spec["wret"] = wret
            cont(pf, s, "l", (V("A", 0, n),), (I("A", 0, n),), d)
            s.misc["noeff"] = EOPS
            add(op, lb, s, args)
        first = NULL if n == ZERO else node("A", ZERO)
        lastp = obj("l") if n == ZERO else node("A", n - 1)
        obs("empty", wret=("b", 1 if n == ZERO else 0))
        for op in ("begin", "cbegin", "beginc"):
            obs(op, outp=first)
        for op in ("end", "cend", "endc"):
            obs(op, outp=NULL)
        for op in ("before_begin", "cbefore_begin", "before_beginc"):
            obs(op, outp=obj("l"))
        if pf != "fl":
            for op in ("before_end", "cbefore_end", "before_endc"):
                obs(op, outp=lastp)
        if n != ZERO:
            obs("front", wret=node("A", ZERO, 8))
            obs("cfront", wret=node("A", ZERO, 8))
            if pf != "fl":
                obs("back", wret=node("A", n - 1, 8))
                obs("cback", wret=node("A", n - 1, 8))
            if d != ZERO:
                continue
            i = sym("i")
            for pre in ("it_", "cit_"):
                for op in ("inc", "pinc"):
                    for edge in (0, 1, 2):
                        s = st0.copy()
                        assert s.assume_ge(i) and s.assume_ge(n - 1 - i)
                        if edge == 1:
                            src, dst = node("A", n - 1), NULL
                        elif edge == 2:
                            src, dst = obj("l"), node("A", ZERO)
                        else:
                            if not s.assume_ge(n - 2 - i):
                                continue
                            src, dst = node("A", i), node("A", i + 1)
                        slots(s, i)
                        it = add_ptr(s, "it", src)
                        r = add_out(s, "r")
                        s.spec["out"] = (("it", 0, dst), ("r", 0, dst if op[0] != "p" else src))
                        cont(pf, s, "l", (V("A", 0, n),), (I("A", 0, n),), d)
                        s.misc["noeff"] = EOPS
                        add(pre + op, lb + (", at the end" if edge == 1 else ", before_begin" if edge == 2 else ""), s, [r, it])
                if pre == "cit_":
                    for edge in (0, 1):
                        s = st0.copy()
                        assert s.assume_ge(i) and s.assume_ge(n - 1 - i)
                        slots(s, i)
                        src = NULL if edge else node("A", i)
                        it = add_ptr(s, "it", src)
                        r = add_out(s, "r")
                        s.spec["out"] = (("it", 0, src), ("r", 0, src))
                        cont(pf, s, "l", (V("A", 0, n),), (I("A", 0, n),), d)
                        s.misc["noeff"] = EOPS
                        add("cit_conv", lb + (", at the end" if edge else ""), s, [r, it])
                for op in ("deref", "arrow"):
                    s = st0.copy()
                    assert s.assume_ge(i) and s.assume_ge(n - 1 - i)
                    slots(s, i)
                    it = add_ptr(s, "it", node("A", i))
                    s.spec["wret"] = node("A", i, 8)
                    cont(pf, s, "l", (V("A", 0, n),), (I("A", 0, n),), d)
                    add(pre + op, lb, s, [it])
    # iterator comparison
    for op, eq in (("it_eq", 1), ("it_ne", 0), ("it_eqc", 1), ("it_nec", 0), ("cit_eq", 1), ("cit_ne", 0)):
        for same in (0, 1, -1):         # (-1: against end())
            s = State()
            n = sym("nA")
            s.assume_ge(n - 1)
            mk(s, pf, "l", "A", n)
            i, j = sym("i"), sym("j")
            s.assume_ge(i)
            s.assume_ge(n - 1 - i)
            if not same:
                s.assume_ge(j - i - 1)
                s.assume_ge(n - 1 - j)
            slots(s, n, i, j)
            a = add_ptr(s, "a", node("A", i))
            b = add_ptr(s, "b", NULL if same < 0 else node("A", i if same else j))
            s.spec["wret"] = ("b", int((same == 1) == eq))
            cont(pf, s, "l", (V("A", 0, n),), (I("A", 0, n),))
            add(op, "end()" if same < 0 else "same position" if same else "different positions", s, [a, b])
    return out


def post_lqnew(eng, st):
    """generic + the returned iterator designates the node that now holds the value"""
    for s, v in generic_post(eng, st):
        if v:
            yield s, v
            continue
        got = obj_field(s, "r", 0)
        if got == UNDEF or got[0] != "p" or got[1] is None or got[1][0] != "n":
            yield s, ("iterator", "returned iterator is %s" % show(got))
            continue
        for s2, val in eng.read_node(s, ("p", got[1], const(8))):
            yield s2, None if val == ("E", X) else ("iterator", "returned iterator designates another element")
