"""bitset: every operation of every instantiated size, decided bit by bit (engine/bits.py); C19, C20, C21"""
import os, re, multiprocessing, traceback
import build, bits
from bits import lit, bv, mkany, mksum, b_and, b_or, b_xor, b_not

SINGLE = {"at", "test", "rbool", "rnot", "rset", "rflip", "rasg", "rown", "setp", "setv", "resetp", "flipp"}
MEM = {"wild-access", "external", "unreachable"}
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


def words(o, n):
    return [lit("%s%03d" % (o, i)) for i in range(n)]


class Case:
    def __init__(self, op, label, fn, args, objs, want=None, ret=None):
        """want: {object: {bit: value}} (other objects unchanged); ret: expected value"""
        self.op, self.label, self.fn, self.args, self.objs = op, label, fn, args, objs
        self.want, self.ret = want or {}, ret


def positions(N, S, past):
    ps = {0, 1, N // 2, N - 2, N - 1, 31, 32, 33, 62, 63, 64, 65, 95, 96, 127, 128, 129, 191, 192, 255, 256, 257}
    if THOROUGH:
        ps |= set(range(N))
    ps = {p for p in ps if 0 <= p < N}
    if past:
        ps |= {N, N + 1, (N + S - 1) // S * S, (N + S - 1) // S * S + 5, 2 * N + 3, 1000, (1 << 31) + 1, (1 << 32) - 1}
        if S == 64:
            ps |= {1 << 32, (1 << 32) + 3, (1 << 63) + 1, (1 << 64) - 1}
    return sorted(ps)


def cases(m, S, names):
    P = lambda o: ("p", o, 0)
    out = []
    for fn in sorted(names):
        mm = re.fullmatch(r"b(\d+)_(\w+)", fn)
        if not mm:
            continue
        N, op = int(mm.group(1)), mm.group(2)
        slots = (N + S - 1) // S
        cap = slots * S
        a, b, c = words("a", cap), words("b", cap), words("o", cap)
        o2 = {"a": a, "b": b}
        A1 = {"a": a}
        oo = lambda **k: dict({"o": c}, **k)

        def add(label, args, objs, want=None, ret=None, fn=fn, op=op, N=N):
            out.append(Case(op, "N=%d%s" % (N, label), fn, args, objs, want, ret))
        low = lambda f: {i: f(i) for i in range(N)}
        if op == "ctor":
            add("", [P("o")], oo(), {"o": low(lambda i: 0)})
        elif op == "copy":
            add("", [P("o"), P("a")], oo(a=a), {"o": low(lambda i: a[i])})
        elif op in ("ul", "ull"):
            w = S if op == "ul" else 64
            v = words("v", w)
            add("", [P("o"), ("bv", tuple(v))], oo(), {"o": low(lambda i: v[i] if i < w else 0)})
        elif op in ("str", "strz", "strc"):
            if N > 129:
                continue
            alpha = (0x30, 0x31) if op != "strc" else (ord("a"), ord("b"))
            ks = sorted(k for k in {0, 1, 2, 5, N - 1, N, N + 1, N + 7, S - 1, S, S + 1} if 0 <= k <= N + 7)
            for k in ks:
                for term in ((0,) if op == "strz" else (None, 0, 0x32, 0x5f, 0xff) if op == "str" else (None, 0, 0x30, ord("c"))):
                    if term not in (None, 0) and k not in (0, 1, 2, N):
                        continue
                    cb = words("c", k)
                    s = []
                    for x in cb:
                        for j in range(8):
                            z, e = (alpha[0] >> j) & 1, (alpha[1] >> j) & 1
                            s.append(z if z == e else x if e else b_not(x))
                    if term is not None:
                        s += [(term >> j) & 1 for j in range(8)]
                        if op != "strz":
                            s += words("g", 8)
                    L = min(k, N)
                    want = {i: cb[L - 1 - i] if i < L else 0 for i in range(N)}
                    n = len(s) // 8
                    args = [P("o"), P("s")] + ([] if op == "strz" else [n]) + (list(alpha) if op == "strc" else [])
                    add(", %d digits%s" % (k, "" if term is None else ", then 0x%02x" % term), args, oo(s=s), {"o": want})
        elif op == "asg":
            add("", [P("a"), P("b")], o2, {"a": low(lambda i: b[i])})
            add(", to itself", [P("a"), P("a")], A1, {"a": low(lambda i: a[i])})
        elif op in ("eq", "ne"):
            add("", [P("a"), P("b")], o2, ret=mkany([b_xor(a[i], b[i]) for i in range(N)], op == "eq"))
            add(", with itself", [P("a"), P("a")], A1, ret=int(op == "eq"))
        elif op in ("eq0", "ne0", "0eq", "0ne"):
            z = {"a": a, "z": []}
            add("", [P("a"), P("z")] if op[-1] == "0" else [P("z"), P("a")], z, ret=mkany(a[:N], "eq" in op))
        elif op in ("at", "test", "rbool", "rnot"):
            for p in positions(N, S, True):
                x = a[p] if p < N else 0
                x = b_not(x) if op == "rnot" else x
                add(", position %d" % p, [P("a"), p], A1, ret=bv((x,)))
        elif op in ("rset", "rflip"):
            for p in positions(N, S, True):
                v = lit("val")
                want = {i: (v if op == "rset" else b_not(a[i])) if i == p else a[i] for i in range(N)}
                add(", position %d" % p, [P("a"), p] + ([("bv", (v,))] if op == "rset" else []), A1, {"a": want})
        elif op in ("rasg", "rown"):
            ps = positions(N, S, True)
            for k, p in enumerate(ps):
                for q in sorted({p, ps[(k * 7 + 3) % len(ps)], ps[0], ps[-1]}):
                    s = b if op == "rasg" else a
                    v = s[q] if q < N else 0
                    want = {i: v if i == p else a[i] for i in range(N)}
                    if op == "rasg":
                        add(", %d = %d" % (p, q), [P("a"), p, P("b"), q], o2, {"a": want})
                    else:
                        add(", %d = own %d" % (p, q), [P("a"), p, q], A1, {"a": want})
        elif op in ("setp", "resetp", "flipp", "setv"):
            for p in positions(N, S, False):
                v = {"setp": 1, "resetp": 0, "flipp": b_not(a[p]), "setv": lit("val")}[op]
                want = {i: v if i == p else a[i] for i in range(N)}
                add(", position %d" % p, [P("a"), p] + ([("bv", (v,))] if op == "setv" else []), A1, {"a": want})
        elif op in ("all", "any", "none"):
            if op == "all" and N == 0:
                continue
            add("", [P("a")], A1, ret=mkany([b_not(x) for x in a[:N]], True) if op == "all" else mkany(a[:N], op == "none"))
        elif op == "count":
            add("", [P("a")], A1, ret=mksum(0, tuple((x, 1) for x in a[:N])))
        elif op == "size":
            add("", [P("a")], A1, ret=N)
        elif op in ("iand", "ior", "ixor", "and", "or", "xor"):
            f = {"and": b_and, "or": b_or, "xor": b_xor}[op.lstrip("i")]
            if op[0] == "i":
                add("", [P("a"), P("b")], o2, {"a": low(lambda i: f(a[i], b[i]))})
                add(", with itself", [P("a"), P("a")], A1, {"a": low(lambda i: f(a[i], a[i]))})
            else:
                add("", [P("o"), P("a"), P("b")], oo(a=a, b=b), {"o": low(lambda i: f(a[i], b[i]))})
        elif op == "not":
            add("", [P("o"), P("a")], oo(a=a), {"o": low(lambda i: b_not(a[i]))})
        elif op in ("shl", "shr", "ishl", "ishr"):
            for n in positions(N, S, True):
                if op.endswith("shl"):
                    g = lambda i, n=n: a[i - n] if i >= n else 0
                else:
                    g = lambda i, n=n: a[i + n] if i + n < N else 0
                if op[0] == "i":
                    add(", by %d" % n, [P("a"), n], A1, {"a": low(g)})
                else:
                    add(", by %d" % n, [P("o"), P("a"), n], oo(a=a), {"o": low(g)})
        elif op in ("set", "reset", "flip"):
            add("", [P("a")], A1, {"a": low(lambda i: {"set": 1, "reset": 0, "flip": b_not(a[i])}[op])})
        elif op in ("tul", "tull"):
            w = S if op == "tul" else 64
            add("", [P("a")], A1, ret=bv([a[i] if i < N else 0 for i in range(w)]))
        elif re.match(r"(from|asg|conv)\d+$", op):
            M = int(op.lstrip("fromasgconv"))
            mc = words("m", (M + S - 1) // S * S)
            want = low(lambda i: mc[i] if i < M else 0)
            if op[0] == "f":
                add(", M=%d" % M, [P("o"), P("m")], oo(m=mc), {"o": want})
            else:
                add(", M=%d" % M, [P("a"), P("m")], {"a": a, "m": mc}, {"a": want})
        elif op != "bytes":
            out.append(Case(op, "N=%d" % N, None, [], {}))
    return out


EXPECT = ("ctor copy ul ull str strz strc asg eq ne at test rbool rnot rset rflip rasg rown all any none count size iand ior ixor and or "
          "xor not shl shr ishl ishr set setp setv reset resetp flip flipp tul tull").split()
_g = {}


def show(a):
    on = sorted(k for k, v in a.items() if v)
    return "bits set: " + (" ".join(on[:6]) + (" ..." if len(on) > 6 else "") if on else "none")


def one(i):
    m, cs = _g["m"], _g["cs"]
    c = cs[i]
    viol, und = [], []
    A = bits.Analysis(m)
    where = "?"
    try:
        A.run(c.fn, c.args, c.objs)
    except bits.Undec as e:
        und.append(str(e))
    except RecursionError:
        und.append("recursion")
    except Exception:
        und.append("engine: " + traceback.format_exc().strip().splitlines()[-1])
    for rule, msg, w in A.reports:
        viol.append((rule, msg, w))
    f = m.funcs[c.fn]
    w = re.search(r"b\d+_\w+", c.fn).group(0)
    for p, ret in A.finals:
        for o, init in c.objs.items():
            wants = c.want.get(o)
            items = wants.items() if wants is not None else enumerate(init)
            for k, want in items:
                got = p.mem[o][k]
                if got == want:
                    continue
                try:
                    d = bits.differs(p, bv((got,)), bv((want,)))
                except Exception:
                    d = "?"
                if d == "?":
                    und.append("bit %d of %s" % (k, o))
                elif d is not None:
                    viol.append(("bit" if wants is not None else "effect", "%s of %s is wrong (%s)" % (
                        "bit %d" % k, {"a": "the operand", "o": "the result", "b": "the other operand"}.get(o, o), show(d)), entry(m, f)))
                    break
        if c.ret is not None:
            try:
                d = bits.differs(p, ret, c.ret)
            except Exception:
                d = "?"
            if d == "?":
                und.append("result")
            elif d is not None:
                viol.append(("value", "the result is wrong (%s)" % show(d), entry(m, f)))
    if not A.finals and not viol and not und:
        und.append("no exit is reached")
    return i, viol, und, len(A.finals), A.steps, A.joins, len(A.instrs)


def entry(m, f):
    """innermost ttl location of the function: the operation the entry calls"""
    best = None
    for b in f.order:
        for ins in f.blocks[b]:
            if ins.dbg:
                for file, line, fn in m.loc(ins.dbg):
                    if file and "ttl/" in file:
                        best = best or "%s (%s)" % (file[file.index("ttl/"):], fn)
    return best or f.name


BUILT = "x86-64"
_res = {}


def analyse(pid):
    out = []
    for target, S, flags, ptr in (("x86-64", 64, (), 8), ("i386", 32, ("-m32", "-ffreestanding"), 4)):
        try:
            m = build.module("bitset.cpp", flags=flags, ptr=ptr)
        except build.BuildError as e:
            if target == BUILT:
                raise
            out.append((target, [], [], [], [{"op": "unit", "case": target, "why": [str(e)[:300]]}]))
            continue
        errs, und = [], []
        names = [f for f in m.funcs if re.match(r"b\d+_", f)]
        for N in sorted({int(f[1:-5]) for f in names if f.endswith("_ctor")}):
            g = m.globals.get("b%d_bytes" % N)
            if g is None or g[1] is None:
                errs.append("no size exported for N=%d" % N)
                continue
            got = g[1][1] if g[1][0] == "int" else 0
            if got != (N + S - 1) // S * (S // 8):
                und.append({"op": "layout", "case": "%s N=%d" % (target, N), "why": ["object size changed to %d bytes" % got]})
                names = [f for f in names if not f.startswith("b%d_" % N)]
                continue
            for op in EXPECT:
                if "b%d_%s" % (N, op) not in m.funcs:
                    errs.append("b%d_%s is not in the analysed unit" % (N, op))
        cs = cases(m, S, names)
        if pid == "C19":
            cs = [c for c in cs if c.op in SINGLE]
        elif pid == "C20":
            cs = [c for c in cs if c.op not in SINGLE]
        _g["m"], _g["cs"] = m, cs
        with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
            rs = list(pool.imap_unordered(one, range(len(cs)), chunksize=16))
        out.append((target, cs, rs, errs, und))
    return out


def run(pid):
    res = dict(stats={}, errors=[], samples=[], violations=[], undecided=[], obligations=0, discharged=0)
    tot = dict(exits=0, abstract_steps=0, joins=0)
    fns = set()
    for target, cs, rs, errs, und in analyse(pid):
        res["errors"] += errs
        res["undecided"] += und
        for i, viol, un, fin, steps, joins, ni in sorted(rs):
            c = cs[i]
            res["obligations"] += 1
            tot["exits"] += fin
            tot["abstract_steps"] += steps
            tot["joins"] += joins
            fns.add(c.fn)
            keep = [v for v in viol if pid != "C21" or v[0] in MEM or v[0] == "no-progress"]
            if target != BUILT:
                # the properties are claimed for the built target; a deviation elsewhere is recorded in the evidence only
                un = un + ["other target: %s: %s" % v[:2] for v in keep]
                keep = []
            for rule, msg, where in keep:
                res["violations"].append(dict(op="bitset " + c.op, label="%s %s" % (target, c.label), rule=rule, msg=msg, where=where))
            if un:
                res["undecided"].append({"op": c.fn, "case": "%s %s" % (target, c.label), "why": sorted(set(un))[:3]})
            elif not viol:
                res["discharged"] += 1
            if i % 997 == 5:
                res["samples"].append({"op": c.fn, "case": "%s %s" % (target, c.label), "exits": fin, "joins": joins, "undecided": bool(un)})
    res["stats"] = {"bit_" + k: v for k, v in tot.items()}
    res["stats"]["bit_functions"] = len(fns)
    return res
