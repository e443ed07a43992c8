"""all cases of a module in parallel: python3 tools/ptrace.py <module> [op|prefix*] ; prints cases with reports, undecided parts or more than 50000 steps"""
import sys, time, importlib, multiprocessing
sys.path.insert(0, '/verif/engine'); sys.path.insert(0, '/verif/checks')
import build, interp, cases
mod = importlib.import_module(sys.argv[1])
flt = sys.argv[2] if len(sys.argv) > 2 else ''
m = build.module(mod.UNIT)
cs = [c for c in mod.cases() if c.op == flt or (flt.endswith('*') and c.op.startswith(flt[:-1])) or not flt]


def one(i):
    c = cs[i]
    e = getattr(mod, "ENGINE_CLASS", interp.Engine)(m, dict(build.SEM, **getattr(mod, "SEM", {})), getattr(mod, "NODES", {}), alloc=getattr(mod, "alloc", None), **getattr(mod, "ENGINE", {}))
    t = time.time()
    e.cut = c.cut; e.order = c.order
    if c.kexact: e.kexact = c.kexact
    out = []
    try:
        e.run(c.op, c.st, c.args, c.post or cases.generic_post, c.label)
    except Exception as ex:
        out.append("     CRASH %r" % ex)
    for k in sorted({("EXACT" if r.exact else "join", r.rule, r.msg, str(r.where())) for r in e.reports}):
        out.append("     " + " ".join(k))
    for u in sorted(set(e.undecided)): out.append("     UNDEC " + str(u[2]))
    if not e.finals and not e.reports: out.append("     NO EXIT")
    return i, e.finals, e.steps, e.joins, time.time() - t, out


n = b = 0
with multiprocessing.Pool(8) as p:
    for i, f, s, j, t, out in p.imap_unordered(one, range(len(cs))):
        n += 1
        if out or s > 50000:
            b += bool(out)
            print("%-18s %-44s fin=%d steps=%d joins=%d %.1fs" % (cs[i].op, cs[i].label, f, s, j, t))
            for o in out[:6]: print(o)
print(n, "cases,", b, "with output")
