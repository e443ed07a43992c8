import sys,time
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/checks')
import build, interp, cases, importlib
mod=importlib.import_module(sys.argv[1])
m=build.module(mod.UNIT)
cs=mod.cases()
flt=sys.argv[2] if len(sys.argv)>2 else ''
import collections
for c in cs:
    if not (c.op==flt or (flt.endswith('*') and c.op.startswith(flt[:-1])) or not flt): continue
    e=getattr(mod,"ENGINE_CLASS",interp.Engine)(m,dict(build.SEM,**getattr(mod,"SEM",{})),getattr(mod,"NODES",{}),alloc=getattr(mod,"alloc",None),**getattr(mod,"ENGINE",{}))
    t=time.time()
    e.cut=c.cut; e.order=c.order
    if c.kexact: e.kexact=c.kexact
    try:
        e.run(c.op,c.st,c.args,c.post or cases.generic_post,c.label)
    except Exception as ex:
        import traceback; traceback.print_exc(); print("CRASH",c.op,c.label); 
        if '-k' not in sys.argv: break
        continue
    seen=set()
    print("%-20s %-50s fin=%d steps=%d joins=%d cuts=%d %.2fs"%(c.op,c.label,e.finals,e.steps,e.joins,e.cuts,time.time()-t))
    for r in e.reports:
        k=(r.rule,r.msg,r.where(),r.exact)
        if k in seen: continue
        seen.add(k); print("    ", "EXACT" if r.exact else "join", r.rule, r.msg, r.where())
    for u in sorted(set(e.undecided)): print("     UNDEC",u[2])
