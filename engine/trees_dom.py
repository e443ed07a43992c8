"""Left-leaning red-black trees in the abstract state: explicit nodes (Obj of kind 'tnode') and summarised subtrees (Obj of kind
'tsum': colour of the root, black height, in-order word), unfolded on access.

Words are sequences of known items ("K", name, cls) and unknown (possibly empty) runs ("W", name, cls); cls is the position of the
items relative to the operation's key: lt, eq, gt."""
from lin import Lin, ZERO, ONE, const, sym
from domain import *
from interp import Engine
import interp

PAR, LEFT, RIGHT, COL, DATA = 0, 8, 16, 24, 32
KEY = ("key",)


def word(*items):
    return ("word",) + tuple(items)


def fields(o):
    return dict(o.fields)


def mkfields(d):
    return tuple(sorted(d.items(), key=lambda x: str(x[0]) if isinstance(x[0], str) else "%04d" % x[0]))


def tmap(v, f):
    """apply f to every tuple of a nested value, top down; f returns a replacement or None"""
    if isinstance(v, tuple):
        r = f(v)
        if r is not None:
            return r
        new = [tmap(x, f) for x in v]
        for a, b in zip(new, v):
            if a is not b:
                return type(v)._make(new) if hasattr(v, "_make") else tuple(new)
    return v


def map_state(st, f):
    st.env = {k: tmap(v, f) for k, v in st.env.items()}
    st.objs = {k: tmap(v, f) for k, v in st.objs.items()}
    st.spec = {k: tmap(v, f) for k, v in st.spec.items()}
    st.facts = tmap(st.facts, f)
    st.frames = tuple((a, b, c, {k: tmap(x, f) for k, x in e.items()}, r) for a, b, c, e, r in st.frames)


def rebase(st, old, new):
    """every pointer with base old gets base new"""
    def f(v):
        if len(v) == 3 and v[0] == "p":
            if v[1] == old:
                return ("p", new, v[2])
            return v
        return None
    map_state(st, f)


def splice(st, m):
    """replace word variables: m: {name: items}"""
    def f(v):
        if v and v[0] == "word":
            if not any(i[0] == "W" and i[1] in m for i in v[1:]):
                return v
            out = []
            for i in v[1:]:
                if i[0] == "W" and i[1] in m:
                    out += m[i[1]]
                else:
                    out.append(i)
            return ("word",) + tuple(out)
        return None
    map_state(st, f)


def newid(st, p):
    n = st.misc.get("nid", 0) + 1
    st.misc["nid"] = n
    return "%s%03d" % (p, n)


def bounds(col, h):
    lo = {"B": 2 ** h - 1, "R": 2 ** (h + 1) - 1, "?": 2 ** h - 1}[col]
    hi = {"B": 3 ** h - 1, "R": 2 * 3 ** h - 1, "?": 2 * 3 ** h - 1}[col]
    return lo, hi


def summary(st, col, h, w, par, size):
    """pointer to a subtree summary (NULL for the empty one); None if it cannot exist"""
    if h.is_const():
        if h.c < 0:
            return None
        ks = sum(1 for i in w[1:] if i[0] == "K")
        lo, hi = bounds(col, h.c)
        if ks > hi or (ks < lo and ks == len(w) - 1):
            return None
        if h.c == 0 and col == "B":
            m = {i[1]: () for i in w[1:]}
            if m:
                splice(st, m)
            return NULL
    t = newid(st, "T")
    st.objs[t] = Obj(size, True, "tsum", mkfields({"par": par, "col": col, "h": h, "wd": w}), None)
    return ("p", ("T", t), ZERO)


class TreeEngine(Engine):
    nodesizes = (48, 64)

    # ------------------------------------------------------------ summaries
    def null_split(self, st, t):
        """[(state, is null)]; the summary is gone where it is null"""
        f = fields(st.objs[t])
        col, h = f["col"], f["h"]
        if col == "R":
            return [(st, False)]
        out = []
        for s, pos in self.split_ge(st, h - 1):
            if pos:
                out.append((s, False))
                continue
            if col == "?":
                r = s.copy()
                g = fields(r.objs[t])
                g["col"] = "R"
                r.objs[t] = r.objs[t]._replace(fields=mkfields(g))
                if self.possible(r, t):
                    out.append((r, False))
            s = s.copy()
            w = fields(s.objs[t])["wd"]
            if any(i[0] == "K" for i in w[1:]):
                continue
            del s.objs[t]
            rebase(s, ("T", t), None)
            if len(w) > 1:
                splice(s, {i[1]: () for i in w[1:]})
            out.append((s, True))
        return out

    def possible(self, st, t):
        f = fields(st.objs[t])
        h = f["h"]
        if not h.is_const():
            return True
        ks = sum(1 for i in f["wd"][1:] if i[0] == "K")
        lo, hi = bounds(f["col"], h.c)
        return not (ks > hi or (ks < lo and ks == len(f["wd"]) - 1))

    def colour_split(self, st, t):
        """[(state)] with a known colour; the summary is not null"""
        f = fields(st.objs[t])
        if f["col"] != "?":
            return [st]
        out = []
        for c in "RB":
            s = st.copy()
            g = fields(s.objs[t])
            g["col"] = c
            s.objs[t] = s.objs[t]._replace(fields=mkfields(g))
            if c == "B" and not s.assume_ge(f["h"] - 1):
                continue
            if self.possible(s, t):
                out.append(s)
        return out

    def expand(self, st, t):
        """[(state, node name)]: a summary of known colour that is not null becomes an explicit node"""
        f = fields(st.objs[t])
        w = f["wd"][1:]
        out = []
        for j, it in enumerate(w):
            s = st.copy()
            if it[0] == "W":
                a, k, b = newid(s, "w"), newid(s, "k"), newid(s, "w")
                splice(s, {it[1]: (("W", a, it[2]), ("K", k, it[2]), ("W", b, it[2]))})
                w2 = fields(s.objs[t])["wd"][1:]
                j2 = j + 1
            else:
                w2, j2 = w, j
            g = fields(s.objs[t])
            size = s.objs[t].size
            n = newid(s, "t")
            me = obj(n)
            h = g["h"]
            if g["col"] == "R":
                lc, lh, rh = "B", h, h
            else:
                lc, lh, rh = "?", h - 1, h - 1
            del s.objs[t]
            tok = w2[j2]
            fd = {PAR: g["par"], COL: const(1 if g["col"] == "R" else 0), DATA: ("E", tok)}
            if size == 64:
                fd[48] = ("E", ("m", tok[1]))
            s.objs[n] = Obj(size, True, "tnode", mkfields(fd), None)
            rebase(s, ("T", t), ("o", n))
            s.spec["~xr"] = ("word",) + tuple(w2[j2 + 1:])
            l = summary(s, lc, lh, ("word",) + tuple(w2[:j2]), me, size)
            if l is None:
                continue
            # the left one may have fixed runs of the right word
            s.spec["~xl"] = l
            r = summary(s, "B", rh, s.spec.pop("~xr"), me, size)
            l = s.spec.pop("~xl")
            if r is None:
                continue
            fd = fields(s.objs[n])
            fd[LEFT], fd[RIGHT] = l, r
            s.objs[n] = s.objs[n]._replace(fields=mkfields(fd))
            out.append((s, n))
        return out

    def unfold(self, st, t, verb):
        """[(state, node name)]; reports a null access"""
        out = []
        for s, null in self.null_split(st, t):
            if null:
                self.report(s, "null-deref", "%s through a null pointer" % verb)
                continue
            for s2 in self.colour_split(s, t):
                out += self.expand(s2, t)
        return out

    def through(self, st, p, verb, extra=()):
        """p designates a summary: [(state, p', extra')] with p' in an explicit node"""
        s0 = st.copy()
        s0.spec["~tp"], s0.spec["~tx"] = p, extra
        out = []
        for s, n in self.unfold(s0, p[1][1], verb):
            s = s.copy()
            p2, x = s.spec.pop("~tp"), s.spec.pop("~tx")
            out.append((s, p2, x))
        return out

    # ------------------------------------------------------------ accesses
    @staticmethod
    def is_t(p):
        return isinstance(p, tuple) and len(p) == 3 and p[0] == "p" and p[1] is not None and p[1][0] == "T"

    def load(self, st, p, size):
        if self.is_t(p):
            out = []
            t = p[1][1]
            if p[2] == const(PAR) or p[2] == const(COL):
                for s, null in self.null_split(st, t):
                    if null:
                        self.report(s, "null-deref", "loads through a null pointer")
                        continue
                    if p[2] == const(PAR):
                        out.append((s, fields(s.objs[t])["par"]))
                        continue
                    for s2 in self.colour_split(s, t):
                        out.append((s2, const(1 if fields(s2.objs[t])["col"] == "R" else 0)))
                return out
            for s, p2, _ in self.through(st, p, "loads"):
                out += self.load(s, p2, size)
            return out
        return Engine.load(self, st, p, size)

    def store(self, st, p, v, size):
        if self.is_t(p):
            out = []
            t = p[1][1]
            if p[2] == const(PAR):
                s0 = st.copy()
                s0.spec["~tv"] = v
                for s, null in self.null_split(s0, t):
                    s = s.copy()
                    v2 = s.spec.pop("~tv")
                    if null:
                        self.report(s, "null-deref", "stores through a null pointer")
                        continue
                    g = fields(s.objs[t])
                    g["par"] = v2
                    s.objs[t] = s.objs[t]._replace(fields=mkfields(g))
                    out.append(s)
                return out
            for s, p2, v2 in self.through(st, p, "stores", v):
                out += self.store(s, p2, v2, size)
            return out
        return Engine.store(self, st, p, v, size)

    def e_read(self, st, p, verb="reads"):
        if self.is_t(p):
            out = []
            for s, p2, _ in self.through(st, p, verb + " an element"):
                out += self.e_read(s, p2, verb)
            return out
        return Engine.e_read(self, st, p, verb)

    def e_write(self, st, p, tok, verb, need_raw):
        if self.is_t(p):
            out = []
            for s, p2, t2 in self.through(st, p, verb, tok if tok is not None else ()):
                out += self.e_write(s, p2, t2 if tok is not None else None, verb, need_raw)
            return out
        return Engine.e_write(self, st, p, tok, verb, need_raw)

    def do_delete(self, st, p, kind):
        if self.is_t(p):
            out = []
            for s, p2, _ in self.through(st, p, "releases"):
                out += self.do_delete(s, p2, kind)
            return out
        if p[0] == "p" and p[1] is not None and p[1][0] == "o" and st.objs[p[1][1]].kind == "tnode":
            o = st.objs[p[1][1]]
            if not o.alive:
                self.report(st, "double-free", "releases a node twice")
                return []
            if p[2] != ZERO:
                self.report(st, "bad-free", "releases a pointer into the middle of a node")
                return []
            if any(isinstance(v, tuple) and v[0] == "E" for _, v in o.fields):
                self.report(st, "leaked-element", "releases a node whose element was not destroyed")
                return []
            if kind != "new":
                self.report(st, "bad-free", "releases a node with operator delete[]")
                return []
            s = st.copy()
            s.eff = s.eff | {"delete"}
            s.objs[p[1][1]] = o._replace(alive=False, fields=())
            return [s]
        return Engine.do_delete(self, st, p, kind)

    def do_new(self, st, site, size, kind):
        if size.is_const() and size.c in self.nodesizes and kind == "new":
            st = st.copy()
            st.eff = st.eff | {"new"}
            n = newid(st, "t")
            st.objs[n] = Obj(size.c, True, "tnode", (), None)
            st.spec["new"] = st.spec.get("new", ()) + (obj(n),)
            return [(st, obj(n))]
        return Engine.do_new(self, st, site, size, kind)

    def ptr_eq(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if not self.is_t(x):
                continue
            if y[0] == "p" and y[1] == x[1]:
                return self.split_eq(st, x[2] - y[2])
            t = x[1][1]
            s0 = st.copy()
            s0.spec["~ca"], s0.spec["~cb"] = a, b
            out = []
            for s, null in self.null_split(s0, t):
                s = s.copy()
                a2, b2 = s.spec.pop("~ca"), s.spec.pop("~cb")
                if null:
                    out += self.ptr_eq(s, a2, b2)
                else:
                    out.append((s, False))
            return out
        return Engine.ptr_eq(self, st, a, b)

    # ------------------------------------------------------------ comparisons
    def pred(self, st, pred, args):
        if pred in ("lt", "eq") and len(args) == 2:
            c = self.order3(args[0], args[1])
            if c is not None:
                return [(st.copy(), ("b", int(c == -1 if pred == "lt" else c == 0)))]
            r = self.compare_hook(st, pred, args)
            if r is not None:
                return r
        return Engine.pred(self, st, pred, args)

    def compare_hook(self, st, pred, args):
        return None

    @staticmethod
    def rank(x):
        """position relative to the key: even ranks are single positions, odd ranks the gaps between them"""
        if x == KEY:
            return 0
        if x[0] == "K":
            return {"lt": -1, "eq": 0, "gt": 1}.get(x[2], x[2] if isinstance(x[2], int) else None)
        return None

    def order3(self, a, b):
        if a == b and a[0] in ("K", "key"):
            return 0
        x, y = self.rank(a), self.rank(b)
        if x is None or y is None:
            return None
        if x != y:
            return -1 if x < y else 1
        return 0 if x % 2 == 0 else None


# ------------------------------------------------------------------ exit checks
def walk_tree(eng, st, root, header, seen):
    """(error, word items, nodes in order, height Lin, colour) of the tree below root; balance errors are collected in seen['bal']"""
    def go(p, par, depth):
        if p == UNDEF or p[0] != "p":
            return "an uninitialised link is reachable from the root", None
        if p[1] is None:
            return None, ([], [], ZERO, 0)
        if p[1][0] == "T":
            t = p[1][1]
            if t in seen["n"]:
                return "a subtree is linked twice", None
            seen["n"].add(t)
            f = fields(st.objs[t])
            if f["par"] != par:
                seen["link"].append("the parent link of a subtree's root does not designate its parent")
            return None, (list(f["wd"][1:]), [None] * (len(f["wd"]) - 1), f["h"], f["col"])
        if p[1][0] != "o" or p[2] != ZERO or st.objs.get(p[1][1]) is None or st.objs[p[1][1]].kind != "tnode":
            return "a link designates something that is not a node of the tree", None
        n = p[1][1]
        o = st.objs[n]
        if not o.alive:
            return "a released node is reachable from the root", None
        if n in seen["n"]:
            return "a node is linked twice (cycle or shared node)", None
        seen["n"].add(n)
        f = fields(o)
        if f.get(PAR, UNDEF) != par:
            seen["link"].append("the parent link of a node does not designate its parent")
        e = f.get(DATA)
        if e is None or e[0] != "E":
            return "a node of the tree holds no live element", None
        if o.size == 64 and (f.get(48) is None or f[48][0] != "E"):
            return "a node of the tree holds no live mapped element", None
        le, l = go(f.get(LEFT, UNDEF), p, depth + 1)
        if le:
            return le, None
        re, r = go(f.get(RIGHT, UNDEF), p, depth + 1)
        if re:
            return re, None
        c = f.get(COL, UNDEF)
        if c == UNDEF or not (isinstance(c, Lin) and c.is_const()):
            return "the colour of a node is not set", None
        red = c.c & 1
        lc, rc = l[3], r[3]
        if rc in (1, "R", "?"):
            seen["bal"].append("a red link leans right")
        if red and lc in (1, "R", "?"):
            seen["bal"].append("two red links follow each other")
        if not st.entails_eq(l[2], r[2]):
            seen["bal"].append("the black heights of two paths differ")
        if o.size == 64:
            seen["mapped"].append((e[1], f[48][1]))
        return None, (l[0] + [e[1]] + r[0], l[1] + [p] + r[1], l[2] + (0 if red else 1), red)
    return go(root, header, 0)


def tree_post(eng, st):
    """spec: trees ((object, wanted word or None), ...), detached (pointer slot names), ..."""
    seen = {"n": set(), "bal": [], "mapped": [], "link": []}
    errs = []
    words = {}
    for o in st.spec.get("trees", ()):
        hd = st.objs[o]
        f = fields(hd)
        hp = obj(o)
        if not hd.alive:
            yield st, ("header", "'%s' is dead at exit" % o)
            return
        if f.get(PAR, UNDEF) == UNDEF:
            yield st, ("header", "the root link of '%s' is not initialised" % o)
            return
        if f.get(LEFT) != NULL and f.get(LEFT) != ZERO or f.get(RIGHT) != NULL and f.get(RIGHT) != ZERO or f.get(COL) != const(1):
            yield st, ("header", "the header of '%s' is not the end-of-tree marker (no children, red)" % o)
            return
        root = f[PAR]
        if root == ZERO:
            root = NULL
        err, r = walk_tree(eng, st, root, hp, seen)
        if err:
            yield st, ("links", "'%s': %s" % (o, err))
            return
        if r[3] in (1, "R", "?"):
            seen["bal"].append("the root is red")
        words[o] = (r[0], r[1])
        want = st.spec.get("want:" + o)
        if want is not None and list(want[1:]) != r[0]:
            errs.append(("contents", "'%s' holds %s, expected %s" % (o, show(r[0]), show(want[1:]))))
    if seen["link"]:
        errs.insert(0, ("links", seen["link"][0]))
    # every live node belongs to a tree or is handed out
    free = set()
    for v in st.spec.get("detached", ()) + ((st.spec.get("ret"),) if st.misc.get("detret") else ()):
        if v and v[0] == "p" and v[1] and v[1][0] == "o":
            free.add(v[1][1])
    for n, o in sorted(st.objs.items()):
        if o.kind in ("tnode", "tsum") and o.alive and n not in seen["n"] and n not in free:
            errs.append(("leak", "a node is owned by nobody at exit"))
            break
        if n in free and n in seen["n"]:
            errs.append(("links", "the returned node is still linked into the tree"))
            break
    mapped = dict((k, v) for k, v in st.spec.get("mapped", ()))
    for k, v in seen["mapped"]:
        want = mapped.get(k, ("m", k[1]) if k[0] == "K" else None)
        if want is not None and v != want:
            errs.append(("contents", "the mapped value of %s is %s, expected %s" % (show([k]), v, want)))
            break
    if seen["bal"]:
        errs.append(("balance", seen["bal"][0]))
    eff = st.spec.get("maxeff")
    if eff is not None:
        bad = sorted(st.eff - set(eff))
        if bad:
            errs.append(("effect", "performs %s" % ", ".join(bad)))
    chk = st.misc.get("check")
    if chk:
        for x in chk(eng, st, words):
            errs.append(x)
    for x in errs:
        yield st, x
    if not errs:
        yield st, None


def show(items):
    def one(i):
        if i[0] in "KW" and isinstance(i[2], int):
            return "%s%s" % ("key%+d" % i[2] if i[2] else "key", "*" if i[0] == "W" else "")
    return "[" + " ".join(one(i) or {"W": "%s*" % i[2], "K": "%s" % i[2], "key": "key", "def": "default"}.get(i[0], str(i)) if i[0] != "key" else "key"
                          for i in items) + "]"
