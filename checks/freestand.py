"""C26: what the templates need from outside, where they allocate, and where they recurse.
Four analyses of the current source: (1) the headers' direct includes; (2) a scan of the type-checked syntax tree of every header, templates
that are never instantiated included; (3) the external symbols and static initialisation of the compiled IR of every public operation;
(4) the call graph of every public operation: reachable operator new, cycles. A reachable operator new in an operation that must not
allocate is confirmed by the abstract interpreter (an infeasible call is no violation)."""
import os, re, json, subprocess, tempfile, shutil, importlib, multiprocessing
import build
from witness import result

STDS = ("c++98", "c++11", "c++17", "c++20")
FREE = set("""stddef.h limits.h stdint.h float.h iso646.h stdalign.h stdarg.h stdbool.h stdnoreturn.h cstddef climits cstdint cfloat ciso646
cstdalign cstdarg cstdbool new limits typeinfo exception initializer_list type_traits version concepts compare coroutine source_location
bit atomic""".split())
UNITS = (("algo.cpp", "algos"), ("arrays.cpp", "arrays"), ("bitset.cpp", None), ("constops.cpp", None), ("list.cpp", "lists"),
         ("slists.cpp", "slists"), ("trees.cpp", "trees"), ("vectors.cpp", "vectors"), ("vmaps.cpp", "svm vmap"))
NEW = {"_Znwm", "_Znam"}
RUNTIME = NEW | {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"}
HARNESS = re.compile(r"^_Z(NK?)?(S[\dA-Z]*_)?.*(1E|1K|1M|2CK|2P1|2P2|2F1|2G0|2U1|2U2)")
GROW = re.compile(
    r"^(list|fl|bl|lq|ve)_(ctor_\w+|assign\w*|push_\w+|insert\w*|resize\w*|reserve)$|"
    r"^(st|mp|rb)_(assign|insert\w*|copy|asg|range|idx)$|^(sm|vm)_(ctor_\w+|index|insert\w*)$|^c_\w+_copy$")
WHOLE = re.compile(r"^(rb|st|mp)_(dtor|assign|copy|asg|clear|range)$|^c_(mp|st)_copy$")


def clang(args, src):
    d = tempfile.mkdtemp(prefix="ttlv.")
    try:
        p = os.path.join(d, "a.cpp")
        with open(p, "w") as f:
            f.write(src)
        return subprocess.run([build.CLANG, "-w", "-I" + build.REPO, "-fexceptions", "-frtti"] + args + [p], capture_output=True, text=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def headers():
    d = os.path.join(build.REPO, "ttl")
    return sorted(x for x in os.listdir(d) if x.endswith((".hpp", ".h")))


def source():
    return "#include <new>\n#include \"ttl/ttl.hpp\"\n" + "".join("#include \"ttl/%s\"\n" % h for h in headers() if h != "ttl.hpp")


# ---- (1) includes

def includes(arg):
    """direct includes of one header"""
    std, h = arg
    r = clang(["-std=" + std, "-fsyntax-only", "-H"], "#include \"ttl/%s\"\n" % h)
    stack, out = [], []
    for l in r.stderr.splitlines():
        m = re.match(r"^(\.+) (.*)$", l)
        if not m:
            continue
        n = len(m.group(1))
        path = os.path.normpath(m.group(2))
        stack = stack[:n - 1] + [path]
        if n > 1 and inttl(stack[n - 2]) and not inttl(path):
            out.append((os.path.relpath(stack[n - 2], build.REPO), os.path.basename(path), path))
    return out


def inttl(path):
    return path is not None and os.path.normpath(path).startswith(os.path.join(build.REPO, "ttl") + os.sep)


# ---- (2) syntax tree

KINDS = {"CXXThrowExpr": "throws an exception", "CXXTryStmt": "has a try block", "CXXCatchStmt": "has a handler",
         "CXXTypeidExpr": "uses typeid", "CXXDynamicCastExpr": "uses dynamic_cast"}


class Scan:
    def __init__(self, root):
        self.file, self.line = None, 0
        self.decl = {}
        self.uses = []
        self.bad = []
        self.functions = 0
        self.nodes = 0
        self.walk(root, None)

    def place(self, l):
        if not isinstance(l, dict):
            return None
        if "spellingLoc" in l or "expansionLoc" in l:
            a = None
            for k in l:
                if k in ("spellingLoc", "expansionLoc"):
                    b = self.place(l[k])
                    if k == "expansionLoc":
                        a = b
            return a
        if "offset" not in l:
            return None
        self.file = l.get("file", self.file)
        self.line = l.get("line", self.line)
        return (self.file, self.line)

    def walk(self, n, fn):
        if not isinstance(n, dict):
            return
        self.nodes += 1
        here = None
        kind = n.get("kind")
        for k in n:
            if k == "loc":
                here = self.place(n[k])
            elif k == "range":
                b = self.place(n[k].get("begin"))
                self.place(n[k].get("end"))
                here = here or b
        if kind in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            self.decl[n.get("id")] = (n.get("name", ""), here[0] if here else None)
            if here and inttl(here[0]):
                fn = n.get("name", "?")
                self.functions += 1
        if here and inttl(here[0]):
            if kind in KINDS:
                self.bad.append((fn, KINDS[kind], here))
            elif kind == "VarDecl" and n.get("tls"):
                self.bad.append((fn, "thread-local variable " + n.get("name", ""), here))
            elif kind == "DeclRefExpr":
                r = n.get("referencedDecl") or {}
                if r.get("kind") == "FunctionDecl":
                    self.uses.append((fn, [r], here))
            elif kind == "UnresolvedLookupExpr" and n.get("lookups"):
                self.uses.append((fn, n["lookups"], here))
        for c in n.get("inner", ()):
            self.walk(c, fn)

    def outside(self):
        for fn, rs, here in self.uses:
            names = []
            for r in rs:
                nm = r.get("name", "")
                d = self.decl.get(r.get("id"))
                if r.get("kind") not in ("FunctionDecl",) or nm.startswith(("__builtin", "operator new", "operator delete")) or d is None \
                        or d[1] is None or inttl(d[1]):
                    break
                names.append(nm)
            else:
                yield fn, "calls %s, which is not part of the library" % names[0], here


def syntax(std):
    r = clang(["-std=" + std, "-fsyntax-only", "-Xclang", "-ast-dump=json"], source())
    if r.returncode and not r.stdout:
        return None, r.stderr[:400]
    s = Scan(json.loads(r.stdout))
    return (s.functions, s.nodes, s.bad + list(s.outside()), len(s.uses)), ""


# ---- (3), (4) IR

def globs(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "glob":
            yield x[1]
        else:
            for y in x:
                yield from globs(y)
    elif isinstance(x, list):
        for y in x:
            yield from globs(y)


def reach(g, s):
    seen, w = {s: None}, [s]
    while w:
        f = w.pop()
        for h in g.get(f, ()):
            if h not in seen:
                seen[h] = f
                w.append(h)
    return seen


def path(seen, t):
    out = [t]
    while seen[out[-1]] is not None:
        out.append(seen[out[-1]])
    return out[::-1]


def cyclic(g):
    """functions on a call cycle (Tarjan)"""
    idx, low, on, st, out, k = {}, {}, set(), [], set(), [0]
    for root in g:
        if root in idx:
            continue
        work = [(root, iter(g.get(root, ())))]
        idx[root] = low[root] = k[0]
        k[0] += 1
        st.append(root)
        on.add(root)
        while work:
            f, it = work[-1]
            for h in it:
                if h not in g:
                    continue
                if h not in idx:
                    idx[h] = low[h] = k[0]
                    k[0] += 1
                    st.append(h)
                    on.add(h)
                    work.append((h, iter(g.get(h, ()))))
                    break
                if h in on:
                    low[f] = min(low[f], idx[h])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[f])
                if low[f] == idx[f]:
                    comp = []
                    while True:
                        x = st.pop()
                        on.discard(x)
                        comp.append(x)
                        if x == f:
                            break
                    if len(comp) > 1 or f in g.get(f, ()):
                        out |= set(comp)
    return out


THROWING = ("__cxa_throw", "__cxa_rethrow", "__cxa_allocate_exception", "__dynamic_cast", "__cxa_bad_typeid", "__cxa_bad_cast")


def throwing(u):
    """[(function, runtime symbol)] of the unit compiled with exceptions and RTTI"""
    d = tempfile.mkdtemp(prefix="ttlv.")
    try:
        p = os.path.join(d, "a.ll")
        build.emit(u, p, d, [x for x in build.FLAGS if x not in ("-fno-exceptions", "-fno-rtti")])
        with open(p) as f:
            text = f.read()
    except build.BuildError as e:
        return None, str(e)[:300]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    fn, out = "?", []
    for l in text.splitlines():
        if l.startswith("define"):
            m = re.search(r"@([\w.$]+)\(", l)
            fn = m.group(1) if m else "?"
        elif " call " in l or " invoke " in l:
            m = re.search(r"@([\w.$]+)\(", l)
            if m and m.group(1) in THROWING:
                out.append((fn, m.group(1)))
    return out, ""


def unit(arg):
    u, exc = arg
    if exc:
        x, err = throwing(u)
        return u, exc, x, err
    try:
        m = build.module(u, inline=False)
    except build.BuildError as e:
        return u, exc, None, str(e)
    g, where, writes = {}, {}, []
    indirect = []
    for f, fn in m.funcs.items():
        s = set()
        for b in fn.blocks.values():
            for i in b:
                gs = [x for x in globs(i.a) if x in m.funcs or x in m.decls]
                for x in gs:
                    s.add(x)
                    where.setdefault((f, x), m.loc(i.dbg))
                if i.op == "store":
                    for x in globs(i.a):
                        if x in m.globals and not m.globals[x][-1] and x.startswith(("_ZN3ttl", "_ZZN3ttl", "_ZZNK3ttl")):
                            writes.append((f, x, m.loc(i.dbg)))
        g[f] = s
    return u, exc, dict(g=g, where={"%s>%s" % k: v for k, v in where.items()}, decls=sorted(m.decls), writes=writes,
                        globals={k: bool(v[-1]) for k, v in m.globals.items()}), ""


CLASSES = ["vector<int>", "fixed_vector<int, 4>", "fixed_vector<int, 1>", "list<int>", "forward_list<int>", "backward_list<int>", "lazy_queue<int>",
           "set<int>", "map<int, long>", "sorted_vector_map<int, long>", "vector_map<int, long>", "bitset<0>", "bitset<7>", "bitset<64>",
           "bitset<100>", "array<int, 3>", "array<int, 0>", "pair<int, long>", "rbtree<int, int, select_same<int>, less<int> >",
           "less<int>", "greater<int>", "equal_to<int>"]


def instantiate(std):
    """[(class, where, error)] of the class templates with a member that cannot be instantiated"""
    out = []
    src = source().count("\n") + 1
    r = clang(["-std=" + std, "-fsyntax-only", "-ferror-limit=0"], source() + "namespace ttl {\n" + "".join("template class %s;\n" % c for c in CLASSES) + "}\n")
    err = None
    for l in r.stderr.splitlines():
        m = re.match(r"(.*?):(\d+):\d+: (fatal error|error|note): (.*)", l)
        if not m:
            continue
        if "error" in m.group(3):
            if err:
                out.append(err)
            err = ["?", "%s:%s" % (m.group(1).replace(build.REPO + "/", ""), m.group(2)), m.group(4)]
        if err and m.group(1).endswith("a.cpp") and src <= int(m.group(2)) - 1 < src + len(CLASSES):
            err[0] = CLASSES[int(m.group(2)) - 1 - src]
    if err:
        out.append(err)
    return out


def first_user(d, sym):
    for k, v in sorted(d["where"].items()):
        if k.endswith(">" + sym):
            return k[:-len(sym) - 1], v
    return "?", "?"


def sem_symbols():
    out = set(build.SEM)
    for _, mods in UNITS:
        for x in (mods or "").split():
            out |= set(getattr(importlib.import_module(x), "SEM", {}))
    return out


def really_allocates(mods, op):
    """(executed?, every case decided?, location) of the allocation by the abstract interpreter"""
    import run
    hit, decided, n = None, True, 0
    for mod in mods.split():
        for r in run.analyse(mod, lambda o: o == op):
            n += 1
            if r["err"] or r["undecided"]:
                decided = False
            m = run._mod
            for fn, blk, ip in r["instrs"]:
                ins = m.funcs[fn].blocks[blk][ip]
                if ins.op in ("call", "invoke") and set(globs(ins.a)) & NEW:
                    hit = m.loc(ins.dbg)
    return hit, decided and n > 0


def really_recurses(mods, op, fns):
    """does the abstract interpreter nest calls of one of fns? (a function that hands over to itself once, with its arguments
    exchanged say, does not; without a case that gets there: yes)"""
    import run
    seen = False
    for mod in mods.split():
        for r in run.analyse(mod, lambda o: o == op):
            if fns & set(r["deep"]) or any("recursion" in x or "call depth" in x for x in r["undecided"] + [r["err"] or ""]):
                return True
            seen = seen or any(fn in fns for fn, _, _ in r["instrs"])
    return not seen


def freestanding(pid):
    res = result()
    viol = {}

    def bad(op, rule, msg, where, label=""):
        viol.setdefault((op, rule, where), dict(op=op, label=label, rule=rule, msg=msg, where=where))

    def ob(n=1):
        res["obligations"] += n
        res["discharged"] += n
    hs = headers()
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
        incs = pool.map(includes, [(std, h) for std in STDS for h in hs])
        trees = pool.map(syntax, STDS, chunksize=1)
        insts = pool.map(instantiate, STDS[1:], chunksize=1)
    for std, errs in zip(STDS[1:], insts):     # (clang rejects bitset.hpp in C++98: sizeof of a member in a static function)
        ob(len(CLASSES) - len(set(e[0] for e in errs)))
        for c, where, msg in errs:
            res["obligations"] += 1
            bad(c, "not-instantiable", "a public member does not compile (%s): %s" % (std, msg), where, std)
    nincl = 0
    for k, std in enumerate(STDS):
        inc = sorted(set(x for r in incs[k * len(hs):(k + 1) * len(hs)] for x in r))
        nincl += len(inc)
        for h, name, full in inc:
            ob()
            if name not in FREE:
                bad(h, "include", "includes <%s>, which a freestanding implementation need not have" % name, h, std)
        s, err2 = trees[k]
        if s is None:
            res["errors"].append("%s: %s" % (std, err2))
            continue
        ob(s[0])
        for fn, what, (f, line) in s[2]:
            bad(fn or "namespace scope", "runtime", what, "%s:%s" % (os.path.relpath(f, build.REPO), line), std)
        res["samples"].append({"standard": std, "functions scanned": s[0], "syntax nodes": s[1], "function references resolved": s[3]})
    sem = sem_symbols()
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
        rs = pool.map(unit, [(u, e) for u, _ in UNITS for e in (False, True)], chunksize=1)
    mods = dict(UNITS)
    nent = nalloc = nrec = 0
    cand, recs = [], []
    for u, exc, d, err in rs:
        if d is None:
            mm = re.search(r"(/ttl/\S+\.hpp:\d+)\S* error: (cannot use '(?:throw|try|typeid|dynamic_cast)'.*)", err)
            if mm:
                bad(u, "runtime", mm.group(2), mm.group(1).lstrip("/"))
            else:
                res["errors"].append(err[:300])
            continue
        if exc:
            ob()
            for f, x in d:
                bad(f, "runtime", "needs the runtime function " + x, f, u)
            continue
        for x in d["decls"]:
            if x.startswith("llvm."):
                continue
            ob()
            if x in RUNTIME or x in sem or (HARNESS.match(x) and not x.startswith(("_ZN3ttl", "_ZNK3ttl", "_ZNSt", "_ZNKSt", "_ZSt"))):
                continue
            f, w = first_user(d, x)
            bad(f, "runtime", "needs the external symbol %s" % x, w, u)
        for x, const in d["globals"].items():
            ob()
            if x.startswith("_ZGV"):
                bad(x, "static", "guarded initialisation of a local static", x, u)
            elif x == "llvm.global_ctors":
                bad(x, "static", "code runs before main", first_user(d, x)[1], u)
        for f, x, w in d["writes"]:
            bad(f, "static", "writes the hidden static object " + x, w, u)
        g = {f: set(c) for f, c in d["g"].items()}
        cyc = cyclic(g)
        for f in sorted(g):
            if f.startswith("_"):
                continue
            nent += 1
            r = reach(g, f)
            ob(2)
            hit = sorted(set(r) & NEW)
            if hit and not GROW.match(f):
                cand.append((u, f, path(r, hit[0]), d["where"]))
            nalloc += bool(hit)
            c = sorted(set(r) & cyc)
            nrec += bool(c)
            if c and not WHOLE.match(f):
                p = path(r, c[0])
                recs.append((u, f, p, c))
    for u, f, p, where in cand:
        w = where.get("%s>%s" % (p[-2], p[-1]), "?")
        if mods[u] is None:
            bad(f, "alloc", "reaches operator new", w + " (" + " > ".join(p[-4:-1]) + ")", u)
            continue
        hit, decided = really_allocates(mods[u], f)
        if hit:
            bad(f, "alloc", "allocates on an executable path", " <- ".join("%s:%d %s" % (str(x).split("/repo/")[-1], l, fn) for x, l, fn in hit), u)
        elif not decided:
            res["discharged"] -= 1
            res["undecided"].append({"op": f, "case": u, "why": ["operator new is reachable in the call graph (%s); no executed path shows it"
                                                                 % " > ".join(p[-4:])]})
    proven = set()
    for u, f, p, c in recs:
        if mods[u] is None or proven & set(c) or really_recurses(mods[u], f, set(c)):
            proven |= set(c) if mods[u] else set()
            bad(f, "recursion", "reaches the recursive function %s" % c[0], " > ".join(p[-3:]), u)
        else:
            res["discharged"] -= 1
            res["undecided"].append({"op": f, "case": u, "why": ["the call graph has a cycle (%s); no path makes more than two nested calls of it" % " > ".join(p[-3:])]})
    res["violations"] = list(viol.values())
    res["stats"] = dict(include_directives=nincl, operations=nent, allocating_operations=nalloc, recursing_operations=nrec,
                        allocation_candidates_interpreted=len(cand), units=[u for u, _ in UNITS])
    return res
