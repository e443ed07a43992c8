"""Facts about opaque predicate results, folded into index-range facts.

point fact: ('pf', pred, (tok,...), 0|1)
range fact: ('rf', pred, (template,...), lo, hi, 0|1): template holds for every @ in [lo,hi)
Templates contain the symbol '@' inside V-token indices.
"""
from lin import Lin, sym, ONE

AT = sym("@")


def inst(tmpl, i):
    m = {"@": i}
    return tuple(("V", t[1], t[2].subst(m)) if t[0] == "V" else t for t in tmpl)


def to_template(a, b):
    """a, b: argument tuples of two consecutive point facts; template with @ = first varying index"""
    base = None
    out = []
    for x, y in zip(a, b):
        if x == y:
            out.append(x)
            continue
        if x[0] != "V" or y[0] != "V" or x[1] != y[1] or (y[2] - x[2]) != ONE:
            return None
        if base is None:
            base = x[2]
        out.append(("V", x[1], AT + (x[2] - base)))
    if base is None:
        return None
    return tuple(out), base


def fold_facts(st, facts):
    fs = list(dict.fromkeys(facts))
    changed = True
    while changed:
        changed = False
        for i in range(len(fs)):
            for j in range(len(fs)):
                if i == j:
                    continue
                m = merge(st, fs[i], fs[j])
                if m is not None:
                    a, b = fs[i], fs[j]
                    fs = [x for x in fs if x is not a and x is not b]
                    fs.append(m)
                    changed = True
                    break
            if changed:
                break
    fs.sort(key=lambda f: repr(skel(f)))
    return tuple(fs)


def skel(f):
    from domain import vskel
    return vskel(f, [])


def merge(st, a, b):
    if a[1] != b[1] or a[-1] != b[-1]:
        return None
    if a[0] == "pf" and b[0] == "pf":
        t = to_template(a[2], b[2])
        if t is None:
            return None
        tm, base = t
        return ("rf", a[1], tm, base, base + 2, a[3])
    if a[0] == "rf" and b[0] == "pf":
        if inst(a[2], a[4]) == b[2]:
            return ("rf", a[1], a[2], a[3], a[4] + 1, a[5])
        if inst(a[2], a[3] - 1) == b[2]:
            return ("rf", a[1], a[2], a[3] - 1, a[4], a[5])
        return None
    if a[0] == "rf" and b[0] == "rf":
        if a[2] == b[2]:
            if a[4] == b[3]:
                return ("rf", a[1], a[2], a[3], b[4], a[5])
        return None
    return None


def lookup(st, pred, args):
    """0/1 if known, else None. May be refined by range facts (entailed only)."""
    for f in st.facts:
        if f[1] != pred:
            continue
        if f[0] == "pf":
            if f[2] == args:
                return f[3]
        else:
            # match template
            at = None
            ok = True
            for t, x in zip(f[2], args):
                if t[0] == "V" and x[0] == "V" and t[1] == x[1]:
                    if t[2].coef("@"):
                        v = x[2] - (t[2] - AT)
                        if at is None:
                            at = v
                        elif at != v:
                            ok = False
                            break
                    elif t[2] != x[2]:
                        ok = False
                        break
                elif t != x:
                    ok = False
                    break
            if ok and at is not None and st.entails(at - f[3]) and st.entails(f[4] - 1 - at):
                return f[5]
    return None


def position(f, args):
    """index at which range fact f speaks about args, if it is the only thing open"""
    at = None
    for t, x in zip(f[2], args):
        if t[0] == "V" and x[0] == "V" and t[1] == x[1]:
            if t[2].coef("@"):
                v = x[2] - (t[2] - AT)
                if at is not None and at != v:
                    return None
                at = v
            elif t[2] != x[2]:
                return None
        elif t != x:
            return None
    return at


# ------------------------------------------------------------------ strict weak orders
def instances(st, pred, cap=12):
    """point facts of pred, range facts with constant bounds instantiated: [(args, value)]"""
    out = []
    for f in st.facts:
        if f[1] != pred:
            continue
        if f[0] == "pf":
            out.append((f[2], f[3]))
        elif f[3].is_const():
            hi = f[4]
            k = f[3].c
            while k < f[3].c + cap and st.entails(hi - 1 - k):
                from lin import const
                out.append((inst(f[2], const(k)), f[5]))
                k += 1
    return out


def order_closure(st, pred, extra=()):
    """reachability in the preorder: {x: {y: 0 (x<=y) | 1 (x<y)}}; None if contradictory"""
    edges = {}

    def add(x, y, w):
        d = edges.setdefault(x, {})
        edges.setdefault(y, {})
        if d.get(y, -1) < w:
            d[y] = w
    for (a, b), v in instances(st, pred):
        if v:
            add(a, b, 1)
        else:
            add(b, a, 0)
    for a, b, w in extra:
        add(a, b, w)
    reach = {}
    for x in edges:
        r = {x: 0}
        work = [x]
        while work:
            y = work.pop()
            for z, w in edges[y].items():
                nw = max(w, r[y])
                if r.get(z, -1) < nw:
                    r[z] = nw
                    work.append(z)
            if r[x] == 1:
                return None
        reach[x] = r
    return reach


def order_lookup(st, pred, a, b):
    """value of pred(a, b) if implied by the facts under weak-order axioms"""
    c = order_closure(st, pred)
    if c is None:
        return None
    if c.get(a, {}).get(b, -1) == 1:
        return 1
    if c.get(b, {}).get(a, -1) >= 0:
        return 0
    return None
