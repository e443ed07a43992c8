"""C27, second half: no operation of the const interface writes to memory reachable from the container.
Inclusion-based points-to over the inlined IR of every const operation; every store, element construction/destruction/assignment and
release must have a target other than the container's own memory."""
import build

WRITERS = {"ctor": 0, "copy": 0, "dtor": 0, "assign": 0}
NEW = {"_Znwm", "_Znam"}
DELETE = {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"}


class Flow:
    def __init__(self, m, entry):
        self.m, self.entry = m, entry
        self.val = {}       # (func, ssa) -> set of roots
        self.cont = {}      # root -> set of roots
        self.ret = {}
        self.sites = []
        self.unknown = set()
        self.work = [entry]
        self.seen = {entry}
        f = m.funcs[entry]
        for i, p in enumerate(f.params):
            if f.ptypes[i][0] == "ptr":
                self.val[(entry, p)] = {"out" if i == 0 else "container"}
        while True:
            n = self.size()
            for fn in list(self.work):
                self.func(fn)
            if self.size() == n:
                break
        self.collect = True
        self.sites = []
        for fn in list(self.work):
            self.func(fn, True)

    def size(self):
        return sum(len(x) for x in self.val.values()) + sum(len(x) for x in self.cont.values()) + \
            sum(len(x) for x in self.ret.values()) + len(self.work)

    def roots(self, fn, v):
        if not isinstance(v, tuple):
            return set()
        if v[0] == "var":
            return self.val.get((fn, v[1]), set())
        if v[0] == "glob":
            return {"global"}
        out = set()
        for x in v[1:]:
            if isinstance(x, tuple):
                out |= self.roots(fn, x)
            elif isinstance(x, list):
                for y in x:
                    out |= self.roots(fn, y) if isinstance(y, tuple) else set()
        return out

    def load(self, rs):
        out = set()
        for r in rs:
            out |= {"container"} if r == "container" else self.cont.get(r, set())
        return out

    def write(self, fn, ins, what, target, vals, collect):
        rs = self.roots(fn, target)
        for r in rs:
            self.cont.setdefault(r, set()).update(vals)
        if collect:
            self.sites.append((what, frozenset(rs), self.m.loc(ins.dbg)))

    def func(self, fn, collect=False):
        f = self.m.funcs[fn]
        for b, ins_list in f.blocks.items():
            for k, i in enumerate(ins_list):
                op, a, out = i.op, i.a, None
                if op == "alloca":
                    out = {"local %s %s" % (fn, i.res)}
                elif op == "load":
                    out = self.load(self.roots(fn, a[1]))
                elif op == "store":
                    self.write(fn, i, "store", a[2], self.roots(fn, a[1]), collect)
                elif op == "phi":
                    out = set()
                    for v, _ in a[1]:
                        out |= self.roots(fn, v)
                elif op == "icmp":
                    out = None
                elif op == "ret":
                    if a[1] is not None:
                        self.ret.setdefault(fn, set()).update(self.roots(fn, a[1]))
                elif op == "call":
                    out = self.call(fn, i, collect)
                elif op in ("br", "condbr", "switch", "unreachable"):
                    pass
                else:
                    out = set()
                    for v in a:
                        if isinstance(v, tuple):
                            out |= self.roots(fn, v) if v and v[0] in ("var", "glob") else set()
                        elif isinstance(v, list):
                            for y in v:
                                if isinstance(y, tuple):
                                    for z in y:
                                        out |= self.roots(fn, z) if isinstance(z, tuple) and z and z[0] == "var" else set()
                if i.res and out:
                    self.val.setdefault((fn, i.res), set()).update(out)

    def call(self, fn, i, collect):
        t, callee, args = i.a
        vs = [v for _, v in args]
        name = callee[1] if callee[0] == "glob" else None
        if name in self.m.funcs:
            if name not in self.seen:
                self.seen.add(name)
                self.work.append(name)
            for p, v in zip(self.m.funcs[name].params, vs):
                r = self.roots(fn, v)
                if r:
                    self.val.setdefault((name, p), set()).update(r)
            return set(self.ret.get(name, set()))
        sem = build.SEM.get(name)
        if sem:
            if sem[0] in WRITERS:
                self.write(fn, i, {"ctor": "construction", "copy": "copy construction", "dtor": "destruction",
                                   "assign": "assignment"}[sem[0]], vs[0], set(), collect)
                if sem[0] == "assign":
                    return self.roots(fn, vs[0])
            return None
        if name in NEW:
            return {"allocated"}
        if name in DELETE:
            self.write(fn, i, "release", vs[0], set(), collect)
            return None
        if name and (name.startswith("llvm.memcpy") or name.startswith("llvm.memmove")):
            self.write(fn, i, "block copy", vs[0], self.load(self.roots(fn, vs[1])), collect)
            return None
        if name and name.startswith("llvm.memset"):
            self.write(fn, i, "block store", vs[0], set(), collect)
            return None
        if name and name.startswith("llvm."):
            out = set()
            for v in vs:
                out |= self.roots(fn, v)
            return out
        self.unknown.add(name or "indirect call")
        return set()


def writes(pid):
    import witness
    res = witness.result()
    m = build.module("constops.cpp")
    names = sorted(n for n in m.funcs if n.startswith("c_"))
    nsites = 0
    if len(names) < 150:
        res["errors"].append("only %d const operations in the unit" % len(names))
    for n in names:
        res["obligations"] += 1
        fl = Flow(m, n)
        nsites += len(fl.sites)
        bad = False
        for what, rs, loc in fl.sites:
            if rs == {"container"}:
                bad = True
                ch = [l for l in loc if l[0] and "ttl/" in l[0]] or loc
                w = "%s:%d (%s)" % (ch[0][0].replace(build.REPO + "/", ""), ch[0][1], ch[0][2]) if ch else n
                res["violations"].append(dict(op=n, label="const operation", rule="const-write", where=w,
                                              msg="%s to memory reachable from the const container" % what))
            elif "container" in rs or "global" in rs:
                bad = True
                res["undecided"].append({"op": n, "case": what, "why": ["target is one of " + ", ".join(sorted(rs))]})
        if fl.unknown:
            bad = True
            res["undecided"].append({"op": n, "case": "external calls", "why": sorted(fl.unknown)[:3]})
        if not bad:
            res["discharged"] += 1
        if len(res["samples"]) < 6 and len(fl.sites) > 2:
            res["samples"].append({"operation": n, "write sites": len(fl.sites),
                                   "targets": sorted(set(x.split(" ")[0] for s in fl.sites for x in s[1]))})
    res["stats"]["const_operations"] = len(names)
    res["stats"]["write_sites"] = nsites
    return res


if __name__ == "__main__":
    import sys, json
    sys.path[:0] = ["engine", "checks"]
    r = writes("C27")
    for x in r["violations"]:
        print(x)
    for x in r["undecided"]:
        print(x)
    print(r["obligations"], r["discharged"], r["stats"], r["errors"], r["samples"])
