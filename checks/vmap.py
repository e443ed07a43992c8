"""vector_map: operations of its own on maps of every size and spare capacity (vector's operations are decided by C01-C03)."""
from cases import *
from lists import X
import svm, vectors
from svm import SEM, NOEFF, AT, key

UNIT = "vmaps.cpp"
NODES = {}
SIZES = {"vm_sizeof": 24, "pair_sizeof": 32}
ENGINE = {"esz": 32, "semsize": svm.SEMSIZE}
NMAX = 5


def vmaps(o, S):
    out = []
    n, c = sym("n" + S), sym("c" + S)
    s = State()
    vec(s, o, S, ZERO, None)
    out.append((o + " without storage", s, ZERO, None))
    for lb, k, cc in (("empty, spare slots", ZERO, c), ("of n>=1, full", n, n), ("of n>=1, spare slots", n, c)):
        s = State()
        if k == n:
            assert s.assume_ge(n - 1)
        if cc == c:
            assert s.assume_ge(c - k - 1)
        slots(s, k, cc)
        vec(s, o, S, k, cc)
        out.append(("%s %s" % (o, lb), s, k, cc))
    return out


def vec(st, o, S, n, c):
    if c is None:
        add_obj(st, o, 24, {0: NULL, 8: NULL, 16: NULL}, "cont")
        return
    ch = []
    if n != ZERO:
        ch.append((ZERO, n, ("V", S, ZERO)))
    if c != n:
        ch.append((n, c, RAW))
    st.arrs["B" + o] = Arr(32, c, True, "E", tuple(ch))
    st.spec["newkind B" + o] = "new"
    add_obj(st, o, 24, {0: aptr("B" + o, ZERO), 8: aptr("B" + o, n * 32), 16: aptr("B" + o, c * 32)}, "cont")


def cont(st, o, want, keep=None):
    st.spec["conts"] = st.spec.get("conts", ()) + ((o, "vec", 0, o),)
    st.spec["want:" + o] = tuple(x for x in want if ilen(x) != ZERO)
    if keep is not None:
        st.spec["block:" + o] = NULL if keep is False else aptr("B" + o, ZERO)


def keyed(st, S, n):
    """[(label, state, p, present)]: the first pair with the key"""
    if n == ZERO:
        return [("key absent", st, ZERO, 0)]
    out = []
    s = st.copy()
    a = ("V", S, AT)
    s.facts = s.facts + (("rf", "eq", (X, a), ZERO, n, 0),)
    out.append(("key absent", s, n, 0))
    p = sym("p")
    s = st.copy()
    assert s.assume_ge(p) and s.assume_ge(n - p - 1)
    slots(s, p)
    s.facts = s.facts + (("rf", "eq", (X, a), ZERO, p, 0), ("pf", "eq", (X, ("V", S, p)), 1))
    out.append(("key first at p", s, p, 1))
    return out


def cases():
    out = []

    def add(op, label, st, args, noeff=NOEFF, **kw):
        if noeff:
            st.misc["noeff"] = noeff
        out.append(Case("vm_" + op, label, st, args, **kw))
    s = State()
    s.objs["l"] = Obj(24, True, "cont", (), None)
    cont(s, "l", ())
    add("ctor", "", s, [obj("l")])
    for lb, s, n, c in vmaps("o", "A"):
        s.objs["l"] = Obj(24, True, "cont", (), None)
        w = (V("A", 0, n),) if n != ZERO else ()
        cont(s, "l", w)
        cont(s, "o", w, c is not None)
        add("ctor_copy", lb, s, [obj("l"), obj("o")], ("E.dtor", "E.assign", "delete"))
    for lb, s, n, c in vmaps("l", "A"):
        s.misc["dead"] = ("l",)
        add("dtor", lb, s.copy(), [obj("l")], ("new", "E.copy", "E.ctor", "E.assign"))
        s.misc.pop("dead")
        cont(s, "l", (), c is not None)
        add("clear", lb, s, [obj("l")], ("new", "delete", "E.copy", "E.ctor", "E.assign"))
    for lb, s, n, c in vmaps("l", "A"):
        for kl, s1, p, e in keyed(s, "A", n):
            spare = c is not None and c != n
            for op in ("insert", "index"):
                s2 = s1.copy()
                a = key(s2, 32 if op == "insert" else 16)
                new = X if op == "insert" else ("f", "pair", X, ("def",))
                cont(s2, "l", [V("A", 0, n)] + ([] if e else [C(new)]), (c is not None) if e or spare else None)
                eff = NOEFF if e else ("new", "delete") if spare else ()
                if op == "insert":
                    s2.spec["outidx"] = (("r", 0, "l", p),)
                    s2.spec["wret"] = ("b", 1 - e)
                    add(op, "%s, %s" % (lb, kl), s2, [add_out(s2, "r"), obj("l"), a], eff)
                else:
                    s2.spec["retidx"] = ("l", p)
                    s2.misc["retoff"] = 16
                    add(op, "%s, %s" % (lb, kl), s2, [obj("l"), a], eff)

            def look(op, ret=None, idx=None, off=0, prs=True):
                if not prs:
                    return
                s2 = s1.copy()
                cont(s2, "l", [V("A", 0, n)], c is not None)
                a = key(s2)
                if ret is not None:
                    s2.spec["wret"] = ret
                else:
                    s2.spec["retidx"] = ("l", idx)
                    s2.misc["retoff"] = off
                add(op, "%s, %s" % (lb, kl), s2, [obj("l"), a])
            for pf in ("", "c"):
                look(pf + "find", idx=p)
                look(pf + "at", idx=p, off=16, prs=e)
            look("count", ret=ZERO, prs=not e)
        for op, i in (("begin", ZERO), ("beginc", ZERO), ("cbegin", ZERO), ("end", n), ("endc", n), ("cend", n)):
            s2 = s.copy()
            cont(s2, "l", [V("A", 0, n)], c is not None)
            s2.spec["retidx"] = ("l", i)
            add(op, lb, s2, [obj("l")])
        for op, r in (("size", n), ("empty", ("b", int(n == ZERO)))):
            s2 = s.copy()
            cont(s2, "l", [V("A", 0, n)], c is not None)
            s2.spec["wret"] = r
            add(op, lb, s2, [obj("l")])
    # the number of pairs with the key: all outcomes on short maps, termination and reads for every length
    from algos import ref_post
    for n in range(0, NMAX + 1):
        s = State()
        c = sym("c")
        assert s.assume_ge(c - n)
        slots(s, c)
        vec(s, "l", "A", const(n), c)
        cont(s, "l", [V("A", 0, n)], True)

        def fn(ask, n=n):
            return {"wret": const(sum(1 for i in range(n) if ask("eq", X, ("V", "A", const(i)))))}
        a = key(s)
        add("count", "n=%d" % n, s, [obj("l"), a], post=generic_ref(fn), kexact=12)
    for lb, s, n, c in vmaps("l", "A"):
        star = ("t", "*")
        s = s.copy()
        for A in list(s.arrs):
            s.arrs[A] = s.arrs[A]._replace(chunks=tuple((lo, hi, ("C", star) if ct != RAW else RAW) for lo, hi, ct in s.arrs[A].chunks))
        cont(s, "l", [C(star, n)], c is not None)
        a = key(s)
        s.misc["nofacts"] = True
        add("count", lb + ", memory rules", s, [obj("l"), a])
    return out


def generic_ref(fn):
    import algos
    inner = algos.ref_post(fn)

    def post(eng, st):
        for s, v in inner(eng, st):
            yield s, v
    return post
