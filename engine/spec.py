"""Pre-states and post-conditions: heap walks, content words, ownership."""
from lin import Lin, ZERO, ONE, const, sym
from domain import *
from domain import content_at
from domain import Layout

DLL = Layout("list node", 32, 8, 0, (16,))
SLL = Layout("forward list node", 24, 0, None, (8,))


def fields(d):
    return tuple(sorted(d.items(), key=lambda x: x[0]))


def add_obj(st, o, size, f, kind="this"):
    st.objs[o] = Obj(size, True, kind, fields(f), None)
    return obj(o)


def add_value(st, o, tok):
    """a live element outside every container; returns its address"""
    st.objs[o] = Obj(16, True, "value", ((0, ("E", tok)),), None)
    return obj(o)


def add_ptr(st, o, p, kind="iter"):
    """an iterator object holding pointer p; returns its address"""
    st.objs[o] = Obj(8, True, kind, ((0, p),), None)
    return obj(o)


def add_out(st, o, size=8):
    st.objs[o] = Obj(size, True, "out", (), None)
    return obj(o)


def need(st, *ls):
    for l in ls:
        if not st.assume_ge(l):
            return False
    return True


def slots(st, *ls):
    st.spec["P"] = tuple(st.spec.get("P", ())) + tuple(ls)


# ---------------------------------------------------------------- walking
class Piece:
    __slots__ = ("F", "lo", "hi", "d", "ct")

    def __init__(self, F, lo, hi, d, ct):
        self.F, self.lo, self.hi, self.d, self.ct = F, lo, hi, d, ct

    def __repr__(self):
        return "%s[%s..%s)%s:%s" % (self.F, self.lo, self.hi, "+" if self.d == 1 else "-", self.ct)


def obj_field(st, o, off):
    return dict(st.objs[o].fields).get(off, UNDEF)


def _isn(p):
    return p[0] == "p" and p[1] is not None and p[1][0] == "n"


def walk(eng, st, o, kind, head=0, end=None, start=None):
    """Follow the chain of container object o.  Yields (state, pieces, tailptr, error) for every feasible split.
    kind 'dll': circular through the header, prev links checked; 'sll': ends at null.
    tailptr: the last node reached (or the header)."""
    H = obj(o) if kind == "dll" else obj(o, head)
    if kind == "dll":
        first = obj_field(st, o, 8)
        stop = H
    else:
        first = obj_field(st, o, head)
        stop = NULL
    if start is not None:
        first = start
    st = st.copy()
    st.spec["~cur"] = first
    st.spec["~prev"] = H
    work = [(st, (), ())]
    guard = 0
    while work:
        guard += 1
        if guard > 400:
            raise Undecided("walk does not finish")
        s, seen, pieces = work.pop()
        cur, prev = s.spec["~cur"], s.spec["~prev"]
        pieces = s.spec.get("~pieces", ())
        if cur == stop:
            err = None
            if kind == "dll":
                bp = obj_field(s, o, 0)
                if not same_ptr(s, bp, prev):
                    err = ("ring", "the header's back link is %s, the last node is %s" % (show(bp), show(prev)))
            yield done(s, err)
            continue
        if cur == UNDEF or cur[0] != "p":
            yield done(s, ("ring", "the chain continues through an uninitialised link"))
            continue
        if cur[1] is None:
            yield done(s, ("ring", "the chain ends in a null link"))
            continue
        if not _isn(cur):
            yield done(s, ("ring", "the chain continues into %s" % show(cur)))
            continue
        if cur[2] != ZERO:
            yield done(s, ("ring", "the chain points into the middle of a node"))
            continue
        F, idx = cur[1][1], cur[1][2]
        for s1, c in eng.locate(s, F, idx):
            s1 = s1.copy()
            cur = s1.spec["~cur"]
            prev = s1.spec["~prev"]
            i = cur[1][2]
            if isinstance(c, Free):
                yield done(s1, ("ring", "the chain contains released node %s" % show(cur)))
                continue
            if isinstance(c, Cell):
                L = s1.lay[F]
                f = dict(c.fields)
                yield done(s1, ("ring", "node %s has uninitialised links or element" % show(cur)))
                continue
            at = c.lo if c.d == 1 else c.hi - 1
            d = i - at
            if d.t and not s1.entails_eq(i, at):
                # entering somewhere: split
                for s2, e in eng.split_eq(s1, d):
                    if e:
                        work.append((s2, seen, None))
                    else:
                        yield from enter_mid(s2, kind, cur, work, eng)
                continue
            if not d.t and d.c != 0:
                yield from enter_mid(s1, kind, cur, work, eng)
                continue
            vis = s1.spec.get("~vis", ())
            key = (F, c.lo, c.hi)
            if key in vis:
                yield done(s1, ("ring", "the chain runs into a cycle that misses the header"))
                continue
            if kind == "dll" and not same_ptr(s1, c.fprev, prev):
                yield done(s1, ("ring", "node %s is reached from %s but its back link is %s" % (show(cur), show(prev), show(c.fprev))))
                continue
            s1.spec["~vis"] = vis + (key,)
            s1.spec["~pieces"] = s1.spec.get("~pieces", ()) + ((F, c.lo, c.hi, c.d if (c.hi - c.lo) != ONE else 1, c.cont),)
            s1.spec["~prev"] = node(F, c.hi - 1 if c.d == 1 else c.lo)
            s1.spec["~cur"] = c.lnext
            work.append((s1, seen, None))


def enter_mid(s, kind, cur, work, eng):
    if kind == "dll":
        yield done(s, ("ring", "the chain enters a run of linked nodes in its middle at %s" % show(cur)))
        return
    # singly linked: split the run there; the part before becomes unreachable unless something else reaches it
    F, i = cur[1][1], cur[1][2]
    for s2, cell in eng.materialise(s, F, i):
        s2 = s2.copy()
        sg = s2.cell2seg(cell)
        if sg is None:
            yield done(s2, ("ring", "uninitialised node"))
            continue
        s2.replace_chunk(cell, [sg])
        work.append((s2, (), None))


def done(s, err):
    s = s.copy()
    for k in ("~cur",):
        s.spec.pop(k, None)
    tail = s.spec.pop("~prev", None)
    s.spec["~tail"] = tail
    vis = s.spec.pop("~vis", ())
    pieces = s.spec.pop("~pieces", ())
    s.spec["~seen"] = s.spec.get("~seen", ()) + vis
    return (s, pieces, tail, err)


def same_ptr(s, a, b):
    if a == b:
        return True
    if a[0] != "p" or b[0] != "p" or a[1] is None or b[1] is None:
        return False
    if a[1][0] == "n" and b[1][0] == "n" and a[1][1] == b[1][1] and a[2] == b[2]:
        return s.entails_eq(a[1][2], b[1][2])
    if a[1] == b[1]:
        return s.entails_eq(a[2], b[2])
    return False


def show(p):
    if p is None or p == UNDEF:
        return "uninitialised"
    if p[0] != "p":
        return repr(p)
    if p[1] is None:
        return "null"
    if p[1][0] == "n":
        return "node %s[%s]" % (p[1][1], p[1][2])
    if p[1][0] == "o":
        return "object '%s'%s" % (p[1][1], "" if p[2] == ZERO else "+%s" % p[2])
    return repr(p)


# ---------------------------------------------------------------- words
# item: ('V', S, lo, hi, d)  values S[lo..hi) in order (d=1) or reversed (d=-1);  ('C', tok, k)  k copies
# identity: each item may carry (F, lo, hi, d) node identity or None
def content_items(F, lo, hi, d, ct):
    """items of one piece of a chain / array chunk; ct content function"""
    if ct == RAW:
        return [("raw", None, hi - lo)]
    k = ct[0]
    n = hi - lo
    if k == "V":
        return [("V", ct[1], lo + ct[2], hi + ct[2], d)]
    if k == "R":
        return [("V", ct[1], ct[2] - hi + 1, ct[2] - lo + 1, -d)]
    if k == "C":
        return [("C", ct[1], n)]
    return [("?", ct, n)]


def ilen(it):
    if it[0] == "V":
        return it[3] - it[2]
    return it[2]


def unit(it):
    """('V',..., unit) normalised so that direction of single values does not matter"""
    if it[0] == "V" and (it[3] - it[2]) == ONE:
        return ("V", it[1], it[2], it[3], 1)
    return it


def first_tok(it):
    if it[0] == "V":
        return ("V", it[1], it[2] if it[4] == 1 else it[3] - 1)
    return it[1]


def drop(it, k):
    if it[0] == "V":
        if it[4] == 1:
            return ("V", it[1], it[2] + k, it[3], 1)
        return ("V", it[1], it[2], it[3] - k, -1)
    return (it[0], it[1], it[2] - k)


def match(eng, st, got, want, ids=False):
    """Compare two words; yields (state, None|text). got/want: tuples of items (see above).
    Items may be prefixed: when ids is set each item is (item, iditem)."""
    st = st.copy()
    st.spec["~g"] = tuple(got)
    st.spec["~w"] = tuple(want)
    work = [st]
    n = 0
    while work:
        n += 1
        if n > 600:
            raise Undecided("word comparison does not finish")
        s = work.pop()
        g, w = s.spec["~g"], s.spec["~w"]
        # drop certainly-empty heads, split on possibly-empty ones
        stop = False
        for name, l in (("~g", g), ("~w", w)):
            if l:
                ln = ilen(l[0])
                if ln.is_const():
                    if ln.c <= 0:
                        s = s.copy()
                        s.spec[name] = l[1:]
                        work.append(s)
                        stop = True
                        break
                elif not s.entails(ln - 1):
                    for s2, e in eng.split_ge(s, ln - 1):
                        s2 = s2.copy()
                        if not e:
                            s2.spec[name] = s2.spec[name][1:]
                        work.append(s2)
                    stop = True
                    break
        if stop:
            continue
        if not g and not w:
            yield fin(s), None
            continue
        if not g:
            yield fin(s), "ends early: %s is missing" % show_items(w)
            continue
        if not w:
            yield fin(s), "has extra %s" % show_items(g)
            continue
        a, b = g[0], w[0]
        ta, tb = first_tok(a), first_tok(b)
        if b[0] == "any" and a[0] != "raw":
            ta = tb = None
        if a[0] == "raw" or b[0] == "raw" or a[0] == "?" or b[0] == "?":
            if a[0] == b[0] and a[1] == b[1]:
                pass
            else:
                yield fin(s), "holds %s where %s is expected" % (show_item(a), show_item(b))
                continue
        r = tok_eq(eng, s, ta, tb)
        for s2, e in r:
            s2 = s2.copy()
            g, w = s2.spec["~g"], s2.spec["~w"]
            a, b = unit(g[0]), unit(w[0])
            if not e:
                yield fin(s2), "holds %s where %s is expected" % (show_item(a), show_item(b))
                continue
            ua, ub = ilen(a) == ONE, ilen(b) == ONE
            same = b[0] == "any" or (a[0] == b[0] and (a[0] != "V" or a[4] == b[4] or ua or ub)) or ua or ub
            if not same:
                # one constant, other varying; or different directions: peel one
                s2.spec["~g"] = (drop(a, 1),) + g[1:]
                s2.spec["~w"] = (drop(b, 1),) + w[1:]
                work.append(s2)
                continue
            la, lb = ilen(a), ilen(b)
            if la == lb:
                s2.spec["~g"], s2.spec["~w"] = g[1:], w[1:]
                work.append(s2)
                continue
            for s3, ge in eng.split_ge(s2, la - lb):
                s3 = s3.copy()
                g, w = s3.spec["~g"], s3.spec["~w"]
                a, b = g[0], w[0]
                if ge:
                    s3.spec["~g"] = (drop(a, ilen(b)),) + g[1:]
                    s3.spec["~w"] = w[1:]
                else:
                    s3.spec["~w"] = (drop(b, ilen(a)),) + w[1:]
                    s3.spec["~g"] = g[1:]
                work.append(s3)


def fin(s):
    s = s.copy()
    s.spec.pop("~g", None)
    s.spec.pop("~w", None)
    return s


def tok_eq(eng, s, a, b):
    if a == b:
        return [(s, True)]
    if a is None or b is None:
        return [(s, a is None and b is None)]
    if a[0] == "V" and b[0] == "V" and a[1] == b[1]:
        return eng.split_eq(s, a[2] - b[2])
    return [(s, False)]


def show_tok(t):
    if t[0] == "V":
        return "%s[%s]" % (t[1], t[2])
    if t[0] == "t":
        return "value %s" % t[1]
    if t[0] == "def":
        return "a default-constructed element"
    return repr(t)


def show_item(it):
    if it[0] == "V":
        if (it[3] - it[2]) == ONE:
            return "%s[%s]" % (it[1], it[2])
        if it[4] == 1:
            return "%s[%s..%s)" % (it[1], it[2], it[3])
        return "%s[%s..%s) reversed" % (it[1], it[2], it[3])
    if it[0] == "C":
        return "%s x %s" % (show_tok(it[1]), it[2]) if it[2] != ONE else show_tok(it[1])
    if it[0] == "raw":
        return "no live element"
    return repr(it)


def show_items(l):
    return ", ".join(show_item(x) for x in l[:4])


def V(S, lo, hi, d=1):
    lo = lo if isinstance(lo, Lin) else const(lo)
    hi = hi if isinstance(hi, Lin) else const(hi)
    return ("V", S, lo, hi, d)


def C(tok, k=ONE):
    return ("C", tok, k if isinstance(k, Lin) else const(k))


def values_of(pieces, po=None):
    out = []
    for F, lo, hi, d, cont in pieces:
        for off, ct in cont:
            if po is None or off == po:
                out += content_items(F, lo, hi, d, ct)
    return tuple(out)


def ids_of(pieces):
    """node identities as a word: existing families as slices of themselves, new nodes as constants"""
    out = []
    for F, lo, hi, d, cont in pieces:
        if F.startswith("N"):
            out.append(("C", ("new",), hi - lo))
        else:
            out.append(("V", "&" + F, lo, hi, d))
    return tuple(out)


def leaks(st):
    """live node chunks that no walk visited"""
    seen = st.spec.get("~seen", ())
    out = []
    for c in st.chunks:
        if isinstance(c, Free):
            continue
        if isinstance(c, Cell):
            out.append((c.F, c.lo, c.lo + 1))
        elif (c.F, c.lo, c.hi) not in seen:
            out.append((c.F, c.lo, c.hi))
    return out
