"""Case construction and the generic post-condition shared by all container checks.

A case = entry function of a harness unit + abstract pre-state + arguments + expectations.  Expectations live in
st.spec so that every refinement of the state's symbols applies to them as well:
  conts   ((name, kind, headoffset, obj), ...)  chains to walk at exit
  want:o  word of element values of container o
  ids:o   word of node identities of container o (optional)
  tail:o  expected tail pointer: ('last'|offset)  (containers with a tail field)
  out     ((obj, off, expected pointer), ...)  pointers written through out parameters
  ret     expected return value: ('p',..) pointer | Lin | ('b',x)
  vals    ((obj, off, tok), ...)      elements outside containers that must still hold tok
"""
from spec import *


class Case:
    """kexact/cut: bounded case (paths with more loop iterations are dropped); order: predicates assumed to be strict
    weak orders; known: id of a recorded finding whose alternative expectations are in st.spec under 'alt:'"""
    __slots__ = ("op", "label", "st", "args", "post", "known", "kexact", "cut", "order")

    def __init__(self, op, label, st, args, post=None, known=None, kexact=None, cut=False, order=()):
        if st.log:
            st = st.copy()
            st.renorm()
            args = [vmap(a, st.norm) for a in args]
        self.op, self.label, self.st, self.args, self.post = op, label, st, args, post
        self.known, self.kexact, self.cut, self.order = known, kexact, cut, order


RULES_MEM = {"wild-access", "use-after-free", "null-deref", "uninitialised", "dead-element", "double-construct",
             "type-confusion", "out-of-bounds", "bad-free", "double-free", "leaked-element", "leak", "ring", "tail",
             "bytewise-copy", "alloc-size", "no-progress", "header", "overflow", "lifetime"}
RULES_VAL = {"contents", "result", "iterator", "order"}


def walk_all(eng, st):
    """walk every container; yields (state, {o: pieces}, {o: tail}, error)"""
    conts = [c for c in st.spec.get("conts", ()) if c[1] not in ("vec", "fix", "pvec")]
    work = [(st, 0, None)]
    while work:
        s, k, err = work.pop()
        if err is not None:
            yield s, err
            continue
        if k == len(conts):
            yield s, None
            continue
        o, kind, head, oo = conts[k]
        for s2, pieces, tail, e in walk(eng, s, oo, kind, head):
            s2 = s2.copy()
            s2.spec["~w:" + o] = pieces
            s2.spec["~t:" + o] = s2.spec.pop("~tail")
            work.append((s2, k + 1, ("%s of '%s': %s" % ("ring", o, e[1])) if e else None))


def ptr_check(eng, s, got, want):
    """[(state, ok)]"""
    if got == UNDEF or (isinstance(got, tuple) and got[0] != "p"):
        return [(s, False)]
    return eng.ptr_eq(s, got, want)


def generic_post(eng, st):
    """generic check; a deviation that matches the alternative of a recorded finding is reported as ('known', id)"""
    alt = [k for k in st.spec if k.startswith("alt:")]
    for s, v in check_post(eng, st):
        if v is None or not alt:
            yield s, v
            continue
        s2 = s.copy()
        for k in list(s2.spec):
            if k.startswith("~"):
                del s2.spec[k]
        for k in alt:
            s2.spec[k[4:]] = s2.spec[k]
        if all(v2 is None for _, v2 in check_post(eng, s2)):
            yield s, ("known", st.misc.get("known", "?"))
        else:
            yield s, v


def check_post(eng, st):
    conts = st.spec.get("conts", ())
    if "twice" in st.misc:
        yield st, ("predicate-calls", "the predicate is applied again to an element it has already judged")
    for s, err in walk_all(eng, st):
        if err:
            yield s, ("ring", err)
            continue
        l = leaks(s)
        if l and not any(c[1] == "pvec" for c in conts):
            yield s, ("leak", "%d run(s) of nodes are owned by nobody at exit: %s" %
                      (len(l), ", ".join("%s[%s..%s)" % x for x in l[:3])))
            continue
        la = leaked_arrays(s)
        if la:
            yield s, ("leak", "storage %s is owned by nobody at exit" % la[0])
            continue
        work = [s]
        for (o, kind, head, oo) in conts:
            if kind in ("vec", "fix", "pvec"):
                nxt = []
                for s1 in work:
                    for s2, e in pvec_check(eng, s1, o) if kind == "pvec" else arr_check(eng, s1, o, kind):
                        if e:
                            yield s2, e
                        else:
                            nxt.append(s2)
                work = nxt
                continue
            nxt = []
            for s1 in work:
                if "want:" + o in s1.spec:
                    got = values_of(s1.spec["~w:" + o])
                    for s2, m in match(eng, s1, got, s1.spec["want:" + o]):
                        if m:
                            yield s2, ("pool" if o.endswith(".dead") else "contents", "'%s' %s" % (o, m))
                        else:
                            nxt.append(s2)
                else:
                    nxt.append(s1)
            work = nxt
            nxt = []
            for s1 in work:
                if "ids:" + o in s1.spec:
                    got = ids_of(s1.spec["~w:" + o])
                    for s2, m in match(eng, s1, got, s1.spec["ids:" + o]):
                        if m:
                            yield s2, ("identity", "nodes of '%s': %s" % (o, m))
                        else:
                            nxt.append(s2)
                else:
                    nxt.append(s1)
            work = nxt
            nxt = []
            for s1 in work:
                if "tailoff:" + o in s1.spec:
                    toff = s1.spec["tailoff:" + o]
                    t = obj_field(s1, oo, toff)
                    if same_ptr(s1, t, s1.spec["~t:" + o]):
                        nxt.append(s1)
                    else:
                        yield s1, ("tail", "tail of '%s' is %s but the last node is %s" % (o, show(t), show(s1.spec["~t:" + o])))
                else:
                    nxt.append(s1)
            work = nxt
        for s1 in work:
            yield from tail_checks(eng, s1)


def words(eng, work, got, want, rule, text):
    """match the words stored under spec keys got/want in every state; returns ([ok states], [(state, report)])"""
    ok, bad = [], []
    for s in work:
        for s2, m in match(eng, s, s.spec[got], s.spec[want]):
            if m:
                bad.append((s2, (rule, text + m)))
            else:
                ok.append(s2)
    return ok, bad


def arr_check(eng, s, o, kind):
    """vector-like container o: header consistent, exactly the slots below size() alive, contents as specified"""
    want = s.spec.get("want:" + o, ())
    if kind == "vec":
        f = [obj_field(s, o, k) for k in (0, 8, 16)]
        if any(x == UNDEF or not isinstance(x, tuple) or x[0] != "p" for x in f):
            yield s, ("header", "'%s' has an uninitialised header" % o)
            return
        if any(x[1] is None for x in f):
            if not all(x[1] is None and x[2] == ZERO for x in f):
                yield s, ("header", "the header of '%s' is %s" % (o, ", ".join(show(x) for x in f)))
                return
            if "block:" + o in s.spec and s.spec["block:" + o] != NULL:
                yield s, ("block", "'%s' gave up its storage" % o)
                return
            if o == "l" and "mincap" in s.spec:
                for s2, ok in eng.split_ge(s, -s.spec["mincap"]):
                    if not ok:
                        yield s2, ("capacity", "no storage after reserve")
                    else:
                        for s3, m in match(eng, s2, (), s2.spec.get("want:" + o, ())):
                            yield s3, ("contents", "'%s' %s" % (o, m)) if m else None
                return
            for s2, m in match(eng, s, (), want):
                yield s2, ("contents", "'%s' %s" % (o, m)) if m else None
            return
        if any(x[1] != f[0][1] for x in f) or f[0][1][0] != "a":
            yield s, ("header", "the header of '%s' is %s" % (o, ", ".join(show(x) for x in f)))
            return
        A = f[0][1][1]
        esz = s.arrs[A].esz
        L, cap = (f[1][2]).divexact(esz), (f[2][2]).divexact(esz)
        if L is None or cap is None or not s.entails_eq(f[0][2], ZERO):
            yield s, ("header", "the header of '%s' is %s" % (o, ", ".join(show(x) for x in f)))
            return
        if not s.arrs[A].alive:
            yield s, ("header", "'%s' uses storage that was released" % o)
            return
        if "block:" + o in s.spec:
            b = s.spec["block:" + o]
            if b == NULL or b[1] != f[0][1] or not s.entails_eq(cap, s.arrs[A].n):
                yield s, ("block", "'%s' no longer has the storage block it had" % o)
                return
    else:
        ob = s.objs[o]
        A = ob.inline[0]
        x = dict(ob.fields).get(ob.inline[2] * ob.inline[3], UNDEF)
        if x == UNDEF or x[0] != "p" or x[1] != ("o", o):
            yield s, ("header", "the end pointer of '%s' is %s" % (o, show(x)))
            return
        L, cap = x[2].divexact(16), const(ob.inline[2])
        if L is None:
            yield s, ("header", "the end pointer of '%s' is %s" % (o, show(x)))
            return
    a = s.arrs[A]
    s = s.copy()
    s.spec["~L"], s.spec["~C"] = L, cap
    work = [s]
    for key, lo, hi in ((0, None, "~L"), (1, "~L", "~C"), (2, "~C", None)):
        nxt = []
        for x in work:
            l = ZERO if lo is None else x.spec[lo]
            h = x.arrs[A].n if hi is None else x.spec[hi]
            for y, ok in eng.split_ge(x, h - l):
                if ok:
                    nxt.append(y)
                else:
                    yield y, ("header", ("size of '%s' is negative", "size of '%s' exceeds its capacity",
                                         "capacity of '%s' exceeds the allocated block")[key] % o)
        work = nxt
    if o == "l" and "mincap" in s.spec:
        nxt = []
        for x in work:
            for y, ok in eng.split_ge(x, x.spec["~C"] - x.spec["mincap"]):
                if ok:
                    nxt.append(y)
                else:
                    yield y, ("capacity", "capacity() is smaller than what was reserved")
        work = nxt
    # the size is the specified one (a deviation is reported in addition to what follows)
    short = []
    for x in work:
        t = ZERO
        for it in x.spec.get("want:" + o, ()):
            t = t + ilen(it)
        for y, ok in eng.split_eq(x, x.spec["~L"] - t):
            y = y.copy()
            if not ok:
                yield y, ("contents", "size of '%s' is not the specified one" % o)
            short.append((y, ok))
    work = [y for y, ok in short]
    wrong = [id(y) for y, ok in short if not ok]
    for y in work:
        y.misc["short"] = id(y) in wrong
    # exactly the slots below size() are alive
    for x in work:
        g = tuple(("raw", None, hi - lo) if ct == RAW else ("C", ("live",), hi - lo) for lo, hi, ct in x.arrs[A].chunks)
        x.spec["~g1"] = g
        x.spec["~w1"] = (("C", ("live",), x.spec["~L"]), ("raw", None, x.arrs[A].n - x.spec["~L"]))
    work, bad = words(eng, work, "~g1", "~w1", "lifetime", "slots of '%s': " % o)
    for y in bad:
        yield y[0], (y[1][0], y[1][1].replace("('live',)", "a live element"))
    work = [x for x in work if not x.misc.pop("short", False)]
    for x in work:
        g = ()
        for lo, hi, ct in x.arrs[A].chunks:
            if ct != RAW:
                g += tuple(content_items(A, lo, hi, 1, ct))
        x.spec["~g1"], x.spec["~w1"] = g, x.spec.get("want:" + o, ())
    work, bad = words(eng, work, "~g1", "~w1", "contents", "'%s' " % o)
    for y in bad:
        yield y
    for y in work:
        y = y.copy()
        for k in ("~g1", "~w1", "~L", "~C"):
            y.spec.pop(k, None)
        yield y, None


def pvec_check(eng, s, o):
    """array of pointers to heap nodes: header consistent, every slot below size() designates another live node, contents as
    specified; the nodes claimed are collected in '~own' (checked by pvec_leaks after the last container)"""
    f = [obj_field(s, o, k) for k in (0, 8, 16)]
    if any(x == UNDEF or not isinstance(x, tuple) or x[0] != "p" for x in f):
        yield s, ("header", "'%s' has an uninitialised header" % o)
        return
    want = s.spec.get("want:" + o, ())
    if any(x[1] is None for x in f):
        if not all(x[1] is None and x[2] == ZERO for x in f):
            yield s, ("header", "the header of '%s' is %s" % (o, ", ".join(show(x) for x in f)))
            return
        for s2, m in match(eng, s, (), want):
            if m:
                yield s2, ("contents", "'%s' %s" % (o, m))
            else:
                yield from pvec_leaks(s2, o)
        return
    if any(x[1] != f[0][1] for x in f) or f[0][1][0] != "a":
        yield s, ("header", "the header of '%s' is %s" % (o, ", ".join(show(x) for x in f)))
        return
    A = f[0][1][1]
    esz = s.arrs[A].esz
    L, cap = f[1][2].divexact(esz), f[2][2].divexact(esz)
    if L is None or cap is None or not s.entails_eq(f[0][2], ZERO):
        yield s, ("header", "the header of '%s' is %s" % (o, ", ".join(show(x) for x in f)))
        return
    if not s.arrs[A].alive:
        yield s, ("header", "'%s' uses storage that was released" % o)
        return
    s = s.copy()
    s.spec["~L"], s.spec["~C"] = L, cap
    work = [s]
    for key, lo, hi in ((0, None, "~L"), (1, "~L", "~C"), (2, "~C", None)):
        nxt = []
        for x in work:
            l = ZERO if lo is None else x.spec[lo]
            h = x.arrs[A].n if hi is None else x.spec[hi]
            for y, ok in eng.split_ge(x, h - l):
                if ok:
                    nxt.append(y)
                else:
                    yield y, ("header", ("size of '%s' is negative", "size of '%s' exceeds its capacity",
                                         "capacity of '%s' exceeds the allocated block")[key] % o)
        work = nxt
    # walk the slots below size()
    out = []
    for x in work:
        x = x.copy()
        x.spec["~at"], x.spec["~g1"], x.spec["~ids"] = ZERO, (), ()
        out.append(x)
    work, fin = out, []
    guard = 0
    while work:
        guard += 1
        if guard > 300:
            raise Undecided("walk of the pointer block does not finish")
        x = work.pop()
        for y, end in eng.split_eq(x, x.spec["~L"] - x.spec["~at"]):
            if end:
                fin.append(y)
                continue
            at = y.spec["~at"]
            for z, k, i in eng.arr_locate(y, A, at, "keeps a size beyond"):
                lo, hi, ct = z.arrs[A].chunks[k]
                if ct[0] != "Pn" or ct[3] != ZERO:
                    yield z, ("contents", "slot %s of '%s' holds %s" % (i, o, show(content_at(ct, i)) if ct != RAW else "nothing"))
                    continue
                F = ct[1]
                z = z.copy()
                z.spec["~n"] = i + ct[2]
                z.spec["~hi"] = hi + ct[2]
                z.spec["~lim"] = z.spec["~L"] + ct[2]
                for u, c in eng.locate(z, F, z.spec["~n"]):
                    if isinstance(c, Free):
                        yield u, ("contents", "'%s' holds a node that was released" % o)
                        continue
                    if isinstance(c, Cell):
                        yield u, ("contents", "'%s' holds a node without an element" % o)
                        continue
                    u = u.copy()
                    u.spec["~ch"] = c.hi
                    u.spec["~ct"] = c.cont[0][1]
                    for v in least(eng, u, ("~hi", "~lim", "~ch")):
                        v = v.copy()
                        e = v.spec.pop("~min")
                        n0 = v.spec["~n"]
                        v.spec["~at"] = v.spec["~at"] + (e - n0)
                        v.spec["~g1"] = v.spec["~g1"] + tuple(content_items(F, n0, e, 1, v.spec["~ct"]))
                        v.spec["~ids"] = v.spec["~ids"] + ((F, n0, e),)
                        for q in ("~n", "~hi", "~lim", "~ch", "~ct"):
                            v.spec.pop(q)
                        work.append(v)
    for x in fin:
        x.spec["~w1"] = x.spec.get("want:" + o, ())
    ok, bad = words(eng, fin, "~g1", "~w1", "contents", "'%s' " % o)
    for y in bad:
        yield y
    for y in ok:
        y = y.copy()
        y.spec["~own"] = y.spec.get("~own", ()) + y.spec["~ids"]
        for k in ("~g1", "~w1", "~L", "~C", "~at", "~ids"):
            y.spec.pop(k, None)
        yield from pvec_leaks(y, o)


def least(eng, s, keys):
    """states in which '~min' is the least of the values under keys"""
    work = [(s, keys[0], 1)]
    while work:
        x, best, k = work.pop()
        if k == len(keys):
            x = x.copy()
            x.spec["~min"] = x.spec[best]
            yield x
            continue
        for y, ge in eng.split_ge(x, x.spec[keys[k]] - x.spec[best]):
            work.append((y, best if ge else keys[k], k + 1))


def pvec_leaks(s, o):
    """after the last container: every live node is designated by exactly one slot"""
    conts = [c[0] for c in s.spec["conts"]]
    if conts[-1] != o:
        yield s, None
        return
    own = s.spec.get("~own", ())
    for F in sorted(set(x[0] for x in own) | set(c.F for c in s.chunks)):
        def runs(l):
            l = list(l)
            res = []
            while l:
                for k, a in enumerate(l):
                    if all(s.entails(b[0] - a[0]) for b in l):
                        break
                else:
                    raise Undecided("order of the node runs")
                a = l.pop(k)
                if res and s.entails_eq(res[-1][1], a[0]):
                    res[-1] = (res[-1][0], a[1])
                elif res and not s.entails(a[0] - res[-1][1]):
                    return None
                else:
                    res.append(a)
            return res
        have = runs([(c.lo, s.hi(c)) for c in s.chunks if c.F == F and not isinstance(c, Free)])
        held = runs([x[1:] for x in own if x[0] == F])
        if held is None:
            yield s, ("contents", "a node is held in two slots")
            return
        if len(have) != len(held) or any(not s.entails_eq(a[0], b[0]) or not s.entails_eq(a[1], b[1])
                                         for a, b in zip(have, held)):
            yield s, ("leak", "nodes %s are alive, %s are held" % (have, held))
            return
    yield s, None


def dead_check(s):
    for o in s.misc.get("dead", ()):
        ob = s.objs[o]
        if ob.inline:
            for lo, hi, ct in s.arrs[ob.inline[0]].chunks:
                if ct != RAW and not s.entails(lo - hi):
                    yield ("lifetime", "elements of '%s' outlive it" % o)


def tail_checks(eng, s1):
    for x in eff_check(s1):
        yield s1, x
        return
    for x in dead_check(s1):
        yield s1, x
        return
    if "retidx" in s1.spec:
        o, i = s1.spec["retidx"]
        ob = s1.objs[o]
        if ob.inline:
            w = ("p", ("o", o), i * 16)
        else:
            b = obj_field(s1, o, 0)
            if b[1] is None:
                w = NULL
            else:
                w = ("p", b[1], b[2] + i * s1.arrs[b[1][1]].esz + s1.misc.get("retoff", 0))
        s1 = s1.copy()
        s1.spec["wret"] = w
        s1.misc["retrule"] = "iterator"
    if "outidx" in s1.spec:     # ((out object, offset, container, index), ...)
        s1 = s1.copy()
        for oo, off, o, i in s1.spec.pop("outidx"):
            b = obj_field(s1, o, 0)
            w = NULL if b[1] is None else ("p", b[1], b[2] + i * s1.arrs[b[1][1]].esz)
            s1.spec["out"] = tuple(s1.spec.get("out", ())) + ((oo, off, w),)
    cur = [s1]
    for k, (o, off, want) in enumerate(s1.spec.get("out", ())):
        nxt = []
        for s in cur:
            o, off, want = s.spec["out"][k]
            got = obj_field(s, o, off)
            if got == UNDEF:
                yield s, ("iterator", "result '%s' is never set" % o)
                continue
            if isinstance(want, Lin):
                if not isinstance(got, Lin):
                    yield s, ("result", "result '%s' is %s" % (o, got))
                    continue
                r = eng.split_eq(s, got - want)
            else:
                r = ptr_check(eng, s, got, want)
            for s2, ok in r:
                if ok:
                    nxt.append(s2)
                else:
                    o, off, want = s2.spec["out"][k]
                    yield s2, ("iterator", "result '%s' is %s, expected %s" % (o, show(obj_field(s2, o, off)), show(want)))
        cur = nxt
    if "wret" in s1.spec:
        nxt = []
        for s in cur:
            got, want = s.spec["ret"], s.spec["wret"]
            if isinstance(want, Lin):
                if isinstance(got, tuple) and got and got[0] == "b":
                    got = const(got[1])
                if not isinstance(got, Lin):
                    yield s, ("result", "returns %r" % (got,))
                    continue
                r = eng.split_eq(s, got - want)
            elif want[0] == "b":
                if isinstance(got, Lin) and got.is_const():
                    got = ("b", 1 if got.c else 0)
                r = [(s, got == want)]
            else:
                r = ptr_check(eng, s, got, want)
            for s2, ok in r:
                if ok:
                    nxt.append(s2)
                else:
                    g, w = s2.spec["ret"], s2.spec["wret"]
                    yield s2, (s2.misc.get("retrule", "result"), "returns %s, expected %s" % (show(g) if isinstance(g, tuple) and g and g[0] == "p" else g,
                                                                    show(w) if isinstance(w, tuple) and w[0] == "p" else w))
        cur = nxt
    for s in cur:
        bad = None
        for (o, off, tok) in s.spec.get("vals", ()):
            got = obj_field(s, o, off)
            if got != ("E", tok):
                bad = ("contents", "element '%s' was changed" % o)
        if bad:
            yield s, bad
        else:
            yield s, None


def eff_check(s):
    allow = s.misc.get("noeff")
    if allow:
        bad = sorted(x for x in s.eff if x in allow)
        if bad:
            yield ("alloc" if {"new", "delete"} & set(bad) else "effect", "performs %s" % ", ".join(bad))


def leaked_arrays(s):
    own = set()
    dead = s.misc.get("dead", ())
    for o, v in s.objs.items():
        if v.inline:
            own.add(v.inline[0])
        if not v.alive or v.kind == "local" or o in dead:
            continue
        for off, x in v.fields:
            if isinstance(x, tuple) and x[0] == "p" and x[1] is not None and x[1][0] == "a":
                own.add(x[1][1])
    return [A for A, a in s.arrs.items() if a.alive and A not in own and not A.startswith("arg")]


# ---------------------------------------------------------------- posts that interpret predicate facts
def cval(st, l):
    """constant value of l in st, or None"""
    if l.is_const():
        return l.c
    for k in range(0, 9):
        if st.entails(l - k):
            if st.entails(const(k) - l):
                return k
        else:
            return None
    return None


def known_pred(st, eng, pred, a, b=None, sym_=False):
    import facts as fm
    args = (a,) if b is None else (a, b)
    v = fm.lookup(st, pred, args)
    if v is None and b is not None and sym_:
        v = fm.lookup(st, pred, (b, a))
    if v is None and b is not None and sym_ and a == b:
        v = 1
    if v is None and b is not None and pred in eng.order:
        v = 0 if a == b else fm.order_lookup(st, pred, a, b)
    return v


def expect(**kw):
    """post factory: fn(eng, st) -> list of (key, value) expectations or None if undecidable here, then generic_post"""
    raise NotImplementedError


def computed(fn):
    """post: expectations computed at exit by fn(eng, st) -> dict for st.spec | ('undecided', why) | ('bad', rule, text)
    | None (infeasible)"""
    def post(eng, st):
        r = fn(eng, st)
        if r is None:
            return
        if isinstance(r, tuple):
            if r[0] == "undecided":
                eng.undecided.append((eng.entry, eng.label, r[1]))
                return
            yield st, (r[1], r[2])
            return
        s = st.copy()
        s.spec.update(r)
        yield from generic_post(eng, s)
    return post


def filtered(o, S, pred, keep, F=None, others=None):
    """result of container o: the elements of S[0..n) whose predicate value is `keep`, in order.
    pred(eng, st, i, kept) -> 0/1/None"""
    def fn(eng, st):
        n = cval(st, st.spec["P"][0])
        if n is None:
            return ("undecided", "length not fixed at exit")
        kept = []
        for i in range(n):
            v = pred(eng, st, i, kept)
            if v is None:
                return ("bad", "contents", "element %s[%d] was never tested" % (S, i))
            if v == keep:
                kept.append(i)
        d = {"want:" + o: tuple(V(S, k, k + 1) for k in kept)}
        d["ids:" + o] = tuple(V("&" + S, k, k + 1) for k in kept)
        return d
    return computed(fn)


def eq_post(A, B, nA, nB, want_equal=1):
    """return value is equality of words A[0..nA) and B[0..nB); lengths are spec slots read at exit"""
    import facts as fm

    def fn(eng, st):
        n, m = st.spec["LA"], st.spec["LB"]
        r = st.spec["ret"]
        if isinstance(r, Lin) and r.is_const():
            r = ("b", r.c)
        if not (isinstance(r, tuple) and r and r[0] == "b"):
            return ("undecided", "return value")
        if (r[1] == 1) == (want_equal == 1):
            # must be equal
            if not st.entails_eq(n, m):
                return ("bad", "result", "reports equality without comparing the lengths")
            if st.entails(-n):
                return {}
            for f in st.facts:
                if f[1] == "eq" and f[-1] == 1:
                    if f[0] == "rf" and st.entails(-f[3]) and st.entails(f[4] - n) and aligned(f[2], A, B):
                        return {}
            # pointwise
            k = cval(st, n)
            if k is None:
                return ("bad", "result", "reports equality without comparing every element")
            for i in range(k):
                if known_pred(st, eng, "eq", ("V", A, const(i)), ("V", B, const(i)), True) != 1:
                    return ("bad", "result", "reports equality without comparing element %d" % i)
            return {}
        if st.entails(n - m - 1) or st.entails(m - n - 1):
            return {}
        for f in st.facts:
            if f[1] == "eq" and f[-1] == 0 and f[0] == "pf":
                a, b = f[2]
                if a[0] == "V" and b[0] == "V" and {a[1], b[1]} == {A, B} and st.entails_eq(a[2], b[2]):
                    return {}
        return ("bad", "result", "reports a difference that was not found")
    return computed(fn)


def aligned(t, A, B):
    a, b = t
    return a[0] == "V" and b[0] == "V" and {a[1], b[1]} == {A, B} and a[2] == b[2]


def merge_post(dst, src, A, B, pred, kinds=None, fld="P"):
    """dst = stable merge of sorted A[0..n) and B[0..m); src empty"""
    import facts as fm

    def fn(eng, st):
        ln, lm = st.spec[fld][0], st.spec[fld][1]
        n, m = cval(st, ln), cval(st, lm)
        cap = 12
        ta = [("V", A, const(i)) for i in range(cap if n is None else n)]
        tb = [("V", B, const(i)) for i in range(cap if m is None else m)]
        extra = [(x[i], x[i + 1], 0) for x in (ta, tb) for i in range(len(x) - 1)]
        c = fm.order_closure(st, pred, extra)
        if c is None:
            return None
        i = j = 0
        word = []
        while True:
            if n is not None and i == n:
                word.append((B, const(j), lm))
                break
            if m is not None and j == m:
                word.append((A, const(i), ln))
                break
            if i >= len(ta) or j >= len(tb):
                return ("undecided", "length not fixed at exit")
            if c.get(tb[j], {}).get(ta[i], -1) == 1:
                word.append((B, const(j), const(j + 1)))
                j += 1
            elif c.get(ta[i], {}).get(tb[j], -1) >= 0:
                word.append((A, const(i), const(i + 1)))
                i += 1
            else:
                return ("bad", "order", "%s[%d] and %s[%d] were merged without being compared" % (A, i, B, j))
        return {"want:" + dst: tuple(V(S, a, b) for S, a, b in word),
                "ids:" + dst: tuple(V("&" + S, a, b) for S, a, b in word), "want:" + src: (), "ids:" + src: ()}
    return computed(fn)


def sorted_fact(S, n, pred="lt"):
    return ("rf", pred, (("V", S, sym("@") + 1), ("V", S, sym("@"))), ZERO, n - 1, 0)
