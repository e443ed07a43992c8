#!/usr/bin/env python3
"""run.py <property> [...]: decide properties of /repo's current tree by static analysis (see DESIGN.md)."""
import sys, os, json, time, importlib, multiprocessing, resource, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]
sys.setrecursionlimit(20000)
import build, layouts

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
BUDGET = 700 if TIER == "quick" else 850


def findings():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)


_mod = None
_unit = None


def limit_memory():
    """a worker that explodes gives its case up (undecided) instead of being ended by the system"""
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def run_once(c, kexact, cut):
    import interp, cases
    e = _unit["cls"](_mod, _unit["sem"], _unit["nodes"], alloc=_unit.get("alloc"), **_unit.get("engine", {}))
    e.cut, e.order = cut, c.order
    e.kexact = kexact
    e.deadline = time.time() + (100 if TIER == "quick" else 300)
    err = None
    try:
        e.run(c.op, c.st.copy(), c.args, c.post or cases.generic_post, c.label)
    except KeyError as ex:
        if c.op in _mod.dropped:
            e.undecided.append((c.op, c.label, "the entry does not compile: " + _mod.dropped[c.op]))
        elif "is not in the analysed unit" in str(ex):
            err = "missing: %s" % ex
        else:
            e.undecided.append((c.op, c.label, "engine: " + traceback.format_exc().strip().splitlines()[-1]))
    except RecursionError:
        e.undecided.append((c.op, c.label, "recursion depth"))
    except Exception:
        e.undecided.append((c.op, c.label, "engine: " + traceback.format_exc().strip().splitlines()[-1]))
    return e, err


def run_case(i):
    c = _unit["cases"][i]
    t = time.time()
    k = (c.kexact or 2) + (1 if TIER == "thorough" else 0)
    e, err = run_once(c, k, c.cut)
    reports = list(e.reports)
    more = 0
    if not c.cut and reports and not any(r.exact for r in reports if r.rule != "known"):
        # a deviation seen only after widening: look for it on an exactly known path
        for k2 in (k + 2, k + 4):
            if k2 != k + 2 and time.time() - t > 20:
                break
            e2, _ = run_once(c, k2, True)
            more += e2.steps
            x = [r for r in e2.reports if r.exact]
            if x:
                reports += x
                break
    if not e.finals and not reports and not e.undecided and not err:
        e.undecided.append((c.op, c.label, "no exit is reached"))
    reps = []
    seen = set()
    for r in reports:
        k = (r.rule, r.msg, r.where(), r.exact)
        if k not in seen:
            seen.add(k)
            reps.append(dict(op=c.op, label=c.label, rule=r.rule, msg=r.msg, where=r.where(), chain=r.chain(), exact=r.exact,
                             trace=list(r.trace)))
    return dict(op=c.op, label=c.label, reports=reps, undecided=sorted(set(u[2] for u in e.undecided)), finals=e.finals,
                steps=e.steps + more, joins=e.joins, cuts=e.cuts, instrs=sorted(e.instrs), deep=sorted(e.deep), err=err, t=time.time() - t,
                bounded=bool(c.cut))


def analyse(modname, opfilter, labelfilter=None):
    """run the cases of one unit in parallel; list of results"""
    global _mod, _unit
    cm = importlib.import_module(modname)
    _mod = build.module(cm.UNIT)
    cs = [c for c in cm.cases() if opfilter(c.op) and (labelfilter is None or labelfilter(c.label))]
    _unit = dict(cases=cs, sem=dict(build.SEM, **getattr(cm, "SEM", {})), nodes=getattr(cm, "NODES", {}),
                 alloc=getattr(cm, "alloc", None), cls=getattr(cm, "ENGINE_CLASS", None) or __import__("interp").Engine, engine=getattr(cm, "ENGINE", {}))
    bad = build.layout_mismatch(_mod, getattr(cm, "SIZES", {})) or layouts.mismatch(cm.UNIT)
    if bad:
        return [dict(op="layout", label="", reports=[], undecided=[bad], finals=0, steps=0, joins=0, cuts=0, instrs=[], deep=[],
                     err=None, t=0, bounded=False)]
    out = []
    with multiprocessing.Pool(min(8, os.cpu_count() or 1), limit_memory) as pool:
        it = pool.imap_unordered(run_case, range(len(cs)), chunksize=1)
        for _ in cs:
            try:
                out.append(it.next(max(1, BUDGET - (time.time() - T0))))
            except multiprocessing.TimeoutError:
                break
        pool.terminate()
    done = set((r["op"], r["label"]) for r in out)
    for c in cs:
        if (c.op, c.label) not in done:
            out.append(dict(op=c.op, label=c.label, reports=[], undecided=["time budget exhausted"], finals=0, steps=0,
                            joins=0, cuts=0, instrs=[], deep=[], err=None, t=0, bounded=False))
    return out


def check(pid):
    from props import PROPS
    t0 = time.time()
    p = PROPS[pid]
    kf = findings()
    known = {x["id"]: x for x in kf["findings"] if pid in x["properties"]}
    viol, knownhit, und, errs = {}, {}, [], []
    stats = dict(cases=0, complete=0, bounded=0, exits=0, abstract_steps=0, joins=0, cut_paths=0)
    fns, instrs, samples = set(), set(), []
    extra = {}
    for modname, opf, rules, *labf in p.get("units", ()):
        for r in analyse(modname, opf, *labf):
            if r["err"]:
                errs.append("%s [%s]: %s" % (r["op"], r["label"], r["err"]))
                continue
            stats["cases"] += 1
            stats["exits"] += r["finals"]
            stats["abstract_steps"] += r["steps"]
            stats["joins"] += r["joins"]
            stats["cut_paths"] += r["cuts"]
            fns.add(r["op"])
            for fn, b, i in r["instrs"]:
                instrs.add((fn, b, i))
            nope = list(r["undecided"])
            for x in r["reports"]:
                if x["rule"] not in rules and x["rule"] != "known":
                    continue
                if x["rule"] == "known" and x["msg"] in known:
                    knownhit.setdefault(x["msg"], x)
                elif x["rule"] == "known":
                    pass
                elif x["exact"]:
                    viol.setdefault((x["op"], x["rule"], x["where"]), x)
                else:
                    nope.append("after widening: %s: %s" % (x["rule"], x["msg"]))
            if nope:
                und.append({"op": r["op"], "case": r["label"], "why": sorted(set(nope))[:3]})
            elif not r["reports"]:
                if r["bounded"] and r["cuts"]:
                    stats["bounded"] += 1
                else:
                    stats["complete"] += 1
            if len(samples) < 12 and (stats["cases"] % 7 == 1):
                samples.append({"op": r["op"], "pre-state": r["label"], "exits": r["finals"], "joins": r["joins"],
                                "undecided": bool(nope)})
    for fn in p.get("static", ()):
        m, f = fn.split(":")
        res = getattr(importlib.import_module(m), f)(pid)
        for k, v in res.get("stats", {}).items():
            extra[k] = v
        errs += res.get("errors", [])
        for s in res.get("samples", []):
            samples.append(s)
        for x in res.get("violations", []):
            if x.get("known") and x["known"] in known:
                knownhit.setdefault(x["known"], x)
            else:
                viol.setdefault((x["op"], x["rule"], x["where"]), x)
        for u in res.get("undecided", []):
            und.append(u)
        stats["cases"] += res.get("obligations", 0)
        stats["complete"] += res.get("discharged", 0)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    cov = dict(explanation=p["rule"],
               obligations=stats["cases"], discharged=stats["complete"],
               discharged_up_to_bound=stats["bounded"], undecided_count=len(und),
               exits_checked=stats["exits"], abstract_steps=stats["abstract_steps"], joins=stats["joins"],
               cut_paths=stats["cut_paths"], entry_functions=sorted(fns), ir_instructions_covered=len(instrs),
               undecided=und[:40], samples=samples, known_findings=sorted(knownhit),
               checker_cmd="python3 run.py " + pid,
               evaluations=stats["cases"], distinct_nontrivial=stats["complete"] + stats["bounded"], rule=p["rule"],
               trusted_base=["clang 18 front end and its inliner/SROA/mem2reg", "/verif/engine"])
    cov.update(extra)
    ev = dict(property=pid, tier=TIER, seed=SEED, level=p.get("level", "other"), coverage=cov,
              assumptions=p.get("assumptions", []) + [
                  "element operations are opaque and do not throw; allocation does not fail",
                  "x86-64 layouts as compiled by clang 18"],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, x in sorted(knownhit.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known[k]["what"]))
    rc = 0
    if viol:
        rep = os.path.join(HERE, "evidence", "replay", pid + ".json")
        with open(rep, "w") as f:
            json.dump(list(viol.values()), f, indent=1)
        for x in list(viol.values())[:8]:
            print("VIOLATION property=%s replay=%s" % (pid, rep))
            print("  %s [%s] %s: %s at %s" % (x["op"], x["label"], x["rule"], x["msg"], x["where"]))
        rc = 1
    elif errs:
        for e in errs[:5]:
            print("ERROR", e)
        rc = 2
    elif stats["cases"] == 0:
        print("ERROR nothing was analysed")
        rc = 2
    print("%s: %d obligations, %d discharged, %d up to a bound, %d undecided, %d violations, %.1fs" %
          (pid, stats["cases"], stats["complete"], stats["bounded"], len(und), len(viol), time.time() - t0))
    return rc


if __name__ == "__main__":
    rc = 0
    for pid in sys.argv[1:]:
        try:
            rc = max(rc, check(pid))
        except build.BuildError as ex:
            print("ERROR", ex)
            rc = 2
    sys.exit(rc)
