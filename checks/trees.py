"""rbtree, set and map: every operation on every left-leaning red-black tree up to a black height (subtrees unfolded on access)."""
import os
from cases import *
from trees_dom import *

UNIT = "trees.cpp"
NODES = {}
SIZES = {"z_tree": 40, "z_node": 48, "z_left": 8, "z_right": 16, "z_color": 24, "z_set": 40, "z_map": 40}
ENGINE = {}
TreeEngine.max_steps = 1500000 if os.environ.get("VERIF_TIER") == "thorough" else 400000
ENGINE_CLASS = TreeEngine
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
HMAX = int(os.environ.get("HM", 4 if THOROUGH else 3))
HSMALL = 2
DEEP = int(os.environ.get("DP", 3 if THOROUGH else 2))
K = ("K", "K", "eq")
A, B_, C = ("W", "A", "lt"), ("W", "B", "gt"), ("W", "C", "eq")
P, N = ("K", "P", "lt"), ("K", "N", "gt")
VAL = ("val",)
ALLOWED = frozenset(["call lt", "call eq"])


def plain(st, o):
    st.objs[o] = Obj(40, True, "param", mkfields({PAR: NULL, LEFT: NULL, RIGHT: NULL, COL: const(1)}), None)
    st.spec["trees"] = st.spec.get("trees", ()) + (o,)


def tree(st, o, h, w, size=48):
    """a tree of black height h holding the word w; False if there is none"""
    plain(st, o)
    st.spec["want:" + o] = w
    r = summary(st, "B", const(h), w, obj(o), size)
    if r is None:
        return False
    if r == NULL:
        st.misc["gone"] = st.misc.get("gone", ()) + tuple(i[1] for i in w[1:])
    g = fields(st.objs[o])
    g[PAR] = r
    st.objs[o] = st.objs[o]._replace(fields=mkfields(g))
    return True


def want(st, o, w, kind="want:"):
    st.spec[kind + o] = word(*[i for i in w[1:] if i[0] != "W" or i[1] not in st.misc.get("gone", ())])


def elem(st, o, *toks):
    st.objs[o] = Obj(16 * len(toks), True, "const", tuple((16 * i, ("E", t)) for i, t in enumerate(toks)), None)


def out(st, o, size=16):
    st.objs[o] = Obj(size, True, "param", (), None)


def unfolded(st, o, item, size=48):
    """[(state, node)]: the states in which the node holding the item is explicit"""
    eng = TreeEngine(None, {})
    res, work = [], [(st, fields(st.objs[o])[PAR])]
    while work:
        s, p = work.pop()
        if p[1] is None:
            continue
        if p[1][0] == "T":
            t = p[1][1]
            if item not in fields(s.objs[t])["wd"]:
                continue
            for s1, null in eng.null_split(s, t):
                if null:
                    continue
                for s2 in eng.colour_split(s1, t):
                    work += [(s3, obj(n)) for s3, n in eng.expand(s2, t)]
            continue
        f = fields(s.objs[p[1][1]])
        if f[DATA] == ("E", item):
            res.append((s, p))
            continue
        work += [(s, f[LEFT]), (s, f[RIGHT])]
    return res


# ------------------------------------------------------------------ expectations
def retval(st):
    return st.spec.get("ret")


def outval(st, o, off):
    return fields(st.objs[o]).get(off, UNDEF)


def node_is(st, p, words, o, where):
    """message unless p is: 'end' the header; an item: the node holding it; ('first', cls): the first item that is not below"""
    items, nodes = words[o]
    if where == "end":
        return None if p == obj(o) else "is %s, expected end()" % name(st, p, words)
    if isinstance(where, tuple) and where[0] == "bound":
        # the first item whose class is in where[1]
        for it, n in zip(items, nodes):
            if it[0] == "W" and it[2] in where[1]:
                return "is %s, but an element before it may satisfy the bound" % name(st, p, words)
            if it[0] == "W":
                continue
            c = it[2] if it[0] == "K" else "eq"
            if c in where[1]:
                return None if p == n else "is %s, expected the first of %s" % (name(st, p, words), "/".join(where[1]))
        return None if p == obj(o) else "is %s, expected end()" % name(st, p, words)
    for it, n in zip(items, nodes):
        if it == where:
            return None if p == n and n is not None else "is %s, expected the node of %s" % (name(st, p, words), show([where]))
    return "cannot be decided"


def name(st, p, words):
    if not isinstance(p, tuple) or p[0] != "p":
        return "no pointer"
    if p[1] is None:
        return "null"
    for o, (items, nodes) in words.items():
        if p == obj(o):
            return "end()"
        for it, n in zip(items, nodes):
            if n == p:
                return "the node of " + show([it])
    return "a pointer to something else"


def expect(*checks):
    """post-check: each check(eng, st, words) returns None, a message or (rule, message)"""
    def run(eng, st, words):
        for c in checks:
            m = c(eng, st, words)
            if m:
                yield m if isinstance(m, tuple) else ("result", m)
                return
    return run


def ret_node(o, where):
    return lambda e, s, w: pre("the result ", node_is(s, retval(s), w, o, where), "iterator")


def out_node(obj_, off, o, where, what="the returned position "):
    return lambda e, s, w: pre(what, node_is(s, outval(s, obj_, off), w, o, where), "iterator")


def pre(a, m, rule):
    return (rule, a + m) if m else None


def ret_is(v, what="the result"):
    return lambda e, s, w: None if same(retval(s), v) else "%s is %s, expected %s" % (what, retval(s), v)


def out_is(o, off, v, what):
    return lambda e, s, w: None if same(outval(s, o, off), v) else "%s is %s, expected %s" % (what, outval(s, o, off), v)


def same(a, b):
    if isinstance(a, tuple) and len(a) == 2 and a[0] == "b":
        a = const(a[1])
    if isinstance(b, tuple) and len(b) == 2 and b[0] == "b":
        b = const(b[1])
    return a == b


def news(n):
    def f(e, s, w):
        k = len(s.spec.get("new", ()))
        return None if k == n else ("effect", "allocates %d nodes, expected %d" % (k, n))
    return f


def holds(o, tok):
    return lambda e, s, w: None if dict(s.objs[o].fields).get(0) == ("E", tok) else ("contents", "the argument was changed")


# ------------------------------------------------------------------ cases
class Gen:
    def __init__(self):
        self.cases = []

    def add(self, op, label, st, args, checks, maxeff=None):
        st.misc["check"] = expect(*checks)
        if maxeff is not None:
            st.spec["maxeff"] = tuple(sorted(maxeff))
        self.cases.append(Case(op, label, st, args, tree_post, kexact=60, cut=True))

    def ok(self, build):
        s = State()
        return s if build(s) is not False else None


LOOK = (("find", "found"), ("lower", ("lt",)), ("upper", None), ("equal", None), ("count", None))


def hs(top):
    return range(0, top + 1)


def keyed_words(multi):
    w = [("key absent", word(A, B_), False), ("key present", word(A, K, B_), True)]
    if multi:
        w.append(("equal keys", word(A, C, B_), None))
    return w


def lookups(g, p, size, multi, top):
    B = lambda *c: ("bound", c)
    for h in hs(top):
        for lb, w, present in keyed_words(multi):
            for c in ("", "c"):
                for op in ("find", "lower", "upper", "equal"):
                    fn = "%s_%s%s" % (p, c, op)
                    s = State()
                    if not tree(s, "M", h, w, size):
                        continue
                    elem(s, "key", KEY)
                    pos = {"lower": B("eq", "gt"), "upper": B("gt"), "find": "end" if present is False else B("eq")}
                    label = "black height %d, %s" % (h, lb)
                    eff = ALLOWED
                    keep = holds("key", KEY)
                    if op == "equal":
                        out(s, "o")
                        g.add(fn, label, s, [obj("o"), obj("M"), obj("key")],
                              [out_node("o", 0, "M", pos["lower"], "equal_range().first "),
                               out_node("o", 8, "M", pos["upper"], "equal_range().second "), keep], eff)
                    elif p == "rb":
                        if op == "find" and present is None:
                            chk = found_any
                        else:
                            chk = ret_node("M", pos[op])
                        g.add(fn, label, s, [obj("M"), obj("key")], [chk, keep], eff)
                    else:
                        out(s, "o")
                        g.add(fn, label, s, [obj("o"), obj("M"), obj("key")], [out_node("o", 0, "M", pos[op]), keep], eff)
            s = State()
            if (h < 3 or present is not None) and tree(s, "M", h, w, size):
                elem(s, "key", KEY)
                g.add(p + "_count", "black height %d, %s" % (h, lb), s, [obj("M"), obj("key")], [count_eq, holds("key", KEY)], ALLOWED)


def found_any(e, s, words):
    items, nodes = words["M"]
    r = retval(s)
    if r == obj("M"):
        return ("iterator", "find reports end() although an equal key may be in the tree") if any(i[2] == "eq" for i in items) else None
    for it, n in zip(items, nodes):
        if n == r:
            return None if it[0] == "K" and it[2] == "eq" else ("iterator", "find designates an element with another key")
    return ("iterator", "find designates no element of the tree")


def count_eq(e, s, words):
    items, nodes = words["M"]
    n = 0
    for it in items:
        if it[2] == "eq":
            if it[0] == "W":
                return "count misses a part of the tree that may hold equal keys"
            n += 1
    return None if same(retval(s), const(n)) else "count is %s, expected %d" % (retval(s), n)


def inserts(g, p, size, top):
    for h in hs(top):
        for lb, w, present in keyed_words(False):
            label = "black height %d, %s" % (h, lb)
            s = State()
            if not tree(s, "M", h, w, size):
                continue
            out(s, "o")
            if size == 64:
                elem(s, "v", KEY, VAL)
                s.spec["mapped"] = ((KEY, VAL),)
            else:
                elem(s, "v", KEY)
            fn = "rb_insert_unique" if p == "rb" else p + "_insert"
            if present:
                g.add(fn, label, s, [obj("o"), obj("M"), obj("v")],
                      [out_node("o", 0, "M", K), out_is("o", 8, const(0), "the insertion flag"), news(0), holds("v", KEY)], ALLOWED)
            else:
                want(s, "M", word(A, KEY, B_))
                g.add(fn, label, s, [obj("o"), obj("M"), obj("v")],
                      [out_node("o", 0, "M", KEY), out_is("o", 8, const(1), "the insertion flag"), news(1), holds("v", KEY)],
                      ALLOWED | {"new", "E.copy"})
        if p == "rb":
            for lb, w, w2 in (("no equal key", word(A, B_), word(A, KEY, B_)), ("equal keys", word(A, C, B_), word(A, C, KEY, B_)),
                              ("an equal key", word(A, K, B_), word(A, K, KEY, B_))):
                s = State()
                if not tree(s, "M", h, w, size):
                    continue
                elem(s, "v", KEY)
                want(s, "M", w2)
                g.add("rb_insert_equal", "black height %d, %s" % (h, lb), s, [obj("M"), obj("v")],
                      [ret_node("M", KEY), news(1)], ALLOWED | {"new", "E.copy"})
    return g


def removed_one(o, w):
    """the tree holds w without exactly one equal item, which the returned node holds; rule contents"""
    def f(e, s, words):
        items = words[o][0]
        want = list(s.spec["orig:" + o][1:])
        r = retval(s)
        if r[0] != "p" or r[1] is None:
            if any(i[2] == "eq" for i in want):
                return "no node is returned although an equal key may be in the tree"
            return None if items == want else ("contents", "the tree holds %s, expected %s" % (show(items), show(want)))
        tok = dict(s.objs[r[1][1]].fields).get(DATA)
        if tok is None or tok[0] != "E" or tok[1] not in want or tok[1][2] != "eq":
            return "the returned node does not hold an equal element"
        want.remove(tok[1])
        return None if items == want else ("contents", "the tree holds %s, expected %s" % (show(items), show(want)))
    return f


def removes(g, p, size, top):
    for h in hs(top):
        for lb, w, present in keyed_words(p == "rb"):
            label = "black height %d, %s" % (h, lb)
            s = State()
            if not tree(s, "M", h, w, size):
                continue
            elem(s, "key", KEY)
            if p == "rb":
                del s.spec["want:M"]
                want(s, "M", w, "orig:")
                s.misc["detret"] = True
                g.add("rb_remove", label, s, [obj("M"), obj("key")], [removed_one("M", w), holds("key", KEY)], ALLOWED)
            else:
                if present:
                    want(s, "M", word(A, B_))
                g.add(p + "_erase", label, s, [obj("M"), obj("key")], [ret_is(const(int(present)), "the number of erased elements"), holds("key", KEY)],
                      ALLOWED | ({"delete", "E.dtor"} if present else set()))


WA = ("W", "S", "any")
WD = ("W", "D", "any")


def same_shape(a, b):
    def f(e, s, words):
        def go(p, q):
            if p[1] is None or q[1] is None:
                return None if p[1] is None and q[1] is None else "the copy has another shape"
            if p[1][0] == "T" or q[1][0] == "T":
                return "a part of the tree is not copied"
            x, y = fields(s.objs[p[1][1]]), fields(s.objs[q[1][1]])
            if x[COL] != y[COL]:
                return "the copy has other colours"
            return go(x[LEFT], y[LEFT]) or go(x[RIGHT], y[RIGHT])
        return pre("", go(fields(s.objs[a])[PAR], fields(s.objs[b])[PAR]), "balance")
    return f


def wholes(g, p, size, top):
    for h in hs(top):
        w = word(WA)
        lb = "black height %d" % h
        asg, copy = (p + "_assign", None) if p == "rb" else (p + "_asg", p + "_copy")
        new = {"new", "E.copy"}
        if copy:
            s = State()
            tree(s, "S", h, w, size)
            s.objs["M"] = Obj(40, True, "param", (), None)
            s.spec["trees"] += ("M",)
            want(s, "M", w)
            g.add(copy, lb, s, [obj("M"), obj("S")], [same_shape("M", "S")], new)
        for h2 in hs(1):
            s = State()
            tree(s, "S", h, w, size)
            tree(s, "M", h2, word(WD), size)
            want(s, "M", w)
            g.add(asg, "%s to black height %d" % (lb, h2), s, [obj("M"), obj("S")], [same_shape("M", "S")],
                  new | {"delete", "E.dtor"})
        s = State()
        tree(s, "M", h, w, size)
        g.add(asg, "self-assignment, " + lb, s, [obj("M"), obj("M")], [news(0)], ALLOWED)
        s = State()
        tree(s, "M", h, w, size)
        want(s, "M", word())
        g.add(p + "_clear", lb, s, [obj("M")], [], {"delete", "E.dtor"})
        s = State()
        tree(s, "M", h, w, size)
        s.spec["trees"] = ()
        g.add(p + "_dtor", lb, s, [obj("M")], [], {"delete", "E.dtor"})
        if p != "rb":
            s = State()
            tree(s, "M", h, w, size)
            g.add(p + "_empty", lb, s, [obj("M")], [ret_is(const(int(h == 0)), "empty()")], ())
    s = State()
    s.objs["M"] = Obj(40, True, "param", (), None)
    s.spec["trees"] = ("M",)
    want(s, "M", word())
    g.add(p + "_ctor", "", s, [obj("M")], [], ())


def ret_root(e, s, words):
    r, t = retval(s), fields(s.objs["M"])[PAR]
    return None if r == t or (not words["M"][0] and r == NULL) else "get_root is not the root"


def iters(g, p, size, top):
    first = ("bound", ("any",))
    for h in hs(top):
        lb = "black height %d" % h
        if p != "rb":
            for op in ("begin", "cbegin", "ccbegin", "end", "cend", "ccend"):
                s = State()
                tree(s, "M", h, word(WA), size)
                out(s, "o")
                g.add("%s_%s" % (p, op), lb, s, [obj("o"), obj("M")],
                      [out_node("o", 0, "M", first if "begin" in op else "end")], ())
        else:
            s = State()
            tree(s, "M", h, word(WA), size)
            g.add("rb_end", lb, s, [obj("M")], [ret_node("M", "end")], ())
            s = State()
            tree(s, "M", h, word(WA), size)
            g.add("rb_root", lb, s, [obj("M")], [ret_root], ())
        for op, w, at, to in (("inc", word(A, K, N, B_), K, N), ("inc", word(A, K), K, "end"),
                              ("dec", word(A, P, K, B_), K, P), ("dec", word(A, P), "end", P)):
            s0 = State()
            if not tree(s0, "M", h, w, size):
                continue
            l2 = "%s, %s" % (lb, {("inc", "end"): "the last element"}.get((op, to), "end()" if at == "end" else "an element"))
            for s, n in unfolded(s0, "M", at, size) if at != "end" else [(s0, obj("M"))]:
                if p == "rb":
                    if at == "end":
                        continue
                    g.add("rb_next" if op == "inc" else "rb_prev", l2, s.copy(), [n], [ret_node("M", to)], ())
                    continue
                for i in ("i", "c"):
                    s1 = s.copy()
                    s1.objs["it"] = Obj(8, True, "param", ((0, n),), None)
                    g.add("%s%s_%s" % (p, i, op), l2, s1, [obj("it")], [out_node("it", 0, "M", to, "the iterator ")], ())
                    s1 = s.copy()
                    s1.objs["it"] = Obj(8, True, "param", ((0, n),), None)
                    out(s1, "o")
                    g.add("%s%s_p%s" % (p, i, op), l2, s1, [obj("o"), obj("it")],
                          [out_node("it", 0, "M", to, "the iterator "), out_node("o", 0, "M", at)], ())
        if p == "rb":
            for op, w, to in (("max", word(A, P), P), ("min", word(N, B_), N)):
                s = State()
                if tree(s, "M", h, w, size):
                    g.add("rb_" + op, lb, s, [fields(s.objs["M"])[PAR]], [ret_node("M", to)], ())
    if p != "rb":
        s0 = State()
        tree(s0, "M", 2, word(A, K, N, B_), size)
        for s, n in unfolded(s0, "M", K, size)[:3]:
            for i in ("i", "c"):
                for d in ("deref", "arrow"):
                    s1 = s.copy()
                    s1.objs["it"] = Obj(8, True, "param", ((0, n),), None)
                    g.add("%s%s_%s" % (p, i, d), "an element", s1, [obj("it")], [ret_is(("p", n[1], const(DATA)), "the reference")], ())
                for op in ("eq", "ne") + (("eqc", "nec") if i == "i" else ("eqi", "nei")):
                    for s2, n2 in unfolded(s.copy(), "M", N, size)[:2]:
                        for eqv in (1, 0):
                            s1 = s2.copy()
                            s1.objs["it"] = Obj(8, True, "param", ((0, n),), None)
                            s1.objs["jt"] = Obj(8, True, "param", ((0, n if eqv else n2),), None)
                            g.add("%s%s_%s" % (p, i, op), "equal" if eqv else "different", s1, [obj("it"), obj("jt")],
                                  [ret_is(const(eqv if op.startswith("eq") else 1 - eqv), "the comparison")], ())
            s1 = s.copy()
            s1.objs["it"] = Obj(8, True, "param", ((0, n),), None)
            out(s1, "o")
            g.add(p + "c_conv", "an element", s1, [obj("o"), obj("it")], [out_node("o", 0, "M", K)], ())


R = lambda n, r: ("W", n, r)
E2 = ("K", "e2", 2)
E3 = ("K", "e3", 0)


def ranges(g, p, size, top):
    """insertion of a range: the elements are ordered by their ranks around the key"""
    eff = ALLOWED | {"new", "E.copy", "E.dtor"}
    elems = 16 if size == 48 else 32
    for op in ("insert_range", "range"):
        for h in hs(top) if op == "insert_range" else (0,):
            base = word(R("a", -1), R("b", 1), R("c", 3))
            k2 = word(R("a", -1), K, R("b", 1), R("c", 3))
            both = word(R("a", -1), KEY, R("b", 1), E2, R("c", 3))
            for lb, w, seq, res, n in (
                    ("empty range", base, (), base, 0), ("one element", base, (KEY,), word(R("a", -1), KEY, R("b", 1), R("c", 3)), 1),
                    ("ascending range", base, (KEY, E2), both, 2), ("descending range", base, (E2, KEY), both, 2),
                    ("equal elements", base, (KEY, E3), word(R("a", -1), KEY, R("b", 1), R("c", 3)), 1),
                    ("a present element", k2, (KEY, E2), word(R("a", -1), K, R("b", 1), E2, R("c", 3)), 1),
                    ("a present element, descending", k2, (E2, KEY), word(R("a", -1), K, R("b", 1), E2, R("c", 3)), 1)):
                s = State()
                if op == "range":
                    if w is k2:
                        continue
                    s.objs["M"] = Obj(40, True, "param", (), None)
                    s.spec["trees"] = ("M",)
                    s.misc["gone"] = ("a", "b", "c")
                elif not tree(s, "M", h, w, size):
                    continue
                f = {}
                for i, t in enumerate(seq):
                    f[elems * i] = ("E", t)
                    if size == 64:
                        f[elems * i + 16] = ("E", ("m2", t[1] if len(t) > 1 else "key"))
                s.objs["r"] = Obj(elems * len(seq), True, "const", mkfields(f), None)
                want(s, "M", res)
                if size == 64:
                    s.spec["mapped"] = tuple((t, ("m2", t[1] if len(t) > 1 else "key")) for t in seq if t in res)
                g.add("%s_%s" % (p, op), lb + (", black height %d" % h if op == "insert_range" else ""), s,
                      [obj("M"), obj("r"), ("p", ("o", "r"), const(elems * len(seq)))], [news(n)], eff if size == 64 or n else ALLOWED)


def equality(neg):
    def f(e, s, words):
        (a, _), (b, _) = words["M"], words["S"]
        m = s.spec["msize"]
        known = {}
        for x in s.facts:
            if x[0] == "pf" and x[1] == "eq":
                known[x[2]] = known[x[2][::-1]] = x[3]
        r = retval(s)
        if same(r, const(1 - neg)):
            if any(i[0] == "W" for i in a + b):
                return "reports equality without looking at every element"
            if len(a) != len(b):
                return "reports equality of %d and %d elements" % (len(a), len(b))
            for x, y in zip(a, b):
                if not known.get((x, y)) or m and not known.get((("m", x[1]), ("m", y[1]))):
                    return "reports equality without comparing every pair of elements"
            return None
        if not same(r, const(neg)):
            return "the result is %s" % (r,)
        for x, y in zip(a, b):
            if x[0] == "W" or y[0] == "W":
                break
            if known.get((x, y)) == 0 or m and known.get((("m", x[1]), ("m", y[1]))) == 0:
                return None
        for x, y in ((a, b), (b, a)):
            if not any(i[0] == "W" for i in x) and sum(i[0] == "K" for i in y) > len(x):
                return None
        return "reports a difference although the elements compared so far are equal"
    return f


def equalities(g, p, size, top):
    for h in hs(top):
        for h2 in hs(top):
            for op in ("eq", "ne"):
                s = State()
                tree(s, "M", h, word(WD), size)
                tree(s, "S", h2, word(WA), size)
                s.spec["msize"] = int(size == 64)
                g.add("%s_%s" % (p, op), "black heights %d and %d" % (h, h2), s, [obj("M"), obj("S")], [equality(int(op == "ne"))], ALLOWED)


def aliases(g, p, size, top):
    """the key or value argument is stored in the tree itself"""
    for h in hs(top):
        s0 = State()
        if not tree(s0, "M", h, word(A, K, B_), size):
            continue
        for key, w in (("~orig", word(A, K, B_)), ("~less", word(A, B_)), ("~dup", word(A, K, K, B_))):
            s0.spec[key] = w            # refined together with the tree
        lb = "black height %d, own element" % h
        for s, n in unfolded(s0, "M", K, size):
            ws = {k: s.spec.pop(k) for k in ("~orig", "~less", "~dup")}
            key = ("p", n[1], const(DATA))
            if p == "rb":
                s1 = s.copy()
                del s1.spec["want:M"]
                want(s1, "M", ws["~orig"], "orig:")
                s1.misc["detret"] = True
                g.add("rb_remove", lb, s1, [obj("M"), key], [removed_one("M", None)], ALLOWED)
                s1 = s.copy()
                want(s1, "M", ws["~dup"])
                g.add("rb_insert_equal", lb, s1, [obj("M"), key], [news(1)], ALLOWED | {"new", "E.copy"})
            else:
                s1 = s.copy()
                want(s1, "M", ws["~less"])
                g.add(p + "_erase", lb, s1, [obj("M"), key], [ret_is(const(1), "the number of erased elements")],
                      ALLOWED | {"delete", "E.dtor"})
            s1 = s.copy()
            out(s1, "o")
            g.add("rb_insert_unique" if p == "rb" else p + "_insert", lb, s1, [obj("o"), obj("M"), key],
                  [out_node("o", 0, "M", K), out_is("o", 8, const(0), "the insertion flag"), news(0)], ALLOWED)
            if size == 64:
                g.add("mp_idx", lb, s.copy(), [obj("M"), key], [ret_mapped(K), news(0)], ALLOWED)


def map_only(g, top):
    for h in hs(top):
        for lb, w, present in keyed_words(False):
            label = "black height %d, %s" % (h, lb)
            s = State()
            if not tree(s, "M", h, w, 64):
                continue
            elem(s, "key", KEY)
            if present:
                g.add("mp_idx", label, s, [obj("M"), obj("key")], [ret_mapped(K), news(0), holds("key", KEY)], ALLOWED)
                for op in ("at", "cat"):
                    s1 = s.copy()
                    g.add("mp_" + op, label, s1, [obj("M"), obj("key")], [ret_mapped(K), holds("key", KEY)], ALLOWED)
            else:
                want(s, "M", word(A, KEY, B_))
                s.spec["mapped"] = ((KEY, ("def",)),)
                g.add("mp_idx", label, s, [obj("M"), obj("key")], [ret_mapped(KEY), news(1), holds("key", KEY)],
                      ALLOWED | {"new", "E.copy", "E.ctor", "E.dtor"})
    for a, b, r in (("lt", None, 1), (None, "lt", 0), (None, None, 0)):
        s = State()
        elem(s, "a", ("K", "a", a) if a else KEY, ("m", "a"))
        elem(s, "b", ("K", "b", b) if b else KEY, ("m", "b"))
        g.add("mp_vcomp", "", s, [obj("a"), obj("b")], [ret_is(const(r), "value_compare")], ALLOWED)


def ret_mapped(item):
    def f(e, s, words):
        items, nodes = words["M"]
        r = retval(s)
        for it, n in zip(items, nodes):
            if it == item and n is not None:
                return None if r == ("p", n[1], const(48)) else "the reference designates %s, expected the mapped value of %s" % (name(s, r, words), show([item]))
        return "the element is not in the tree"
    return f


def cases():
    g = Gen()
    top = HMAX
    for p, size, multi in (("rb", 48, True), ("st", 48, False), ("mp", 64, False)):
        t = top if p == "rb" else top - 1
        lookups(g, p, size, multi, t)
        inserts(g, p, size, t)
        removes(g, p, size, t)
        aliases(g, p, size, HSMALL)
        wholes(g, p, size, HSMALL)
        iters(g, p, size, t + DEEP)
        if p != "rb":
            ranges(g, p, size, HSMALL)
            equalities(g, p, size, HSMALL)
    map_only(g, top - 1)
    return g.cases
