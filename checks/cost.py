"""C33: constant-time operations and logarithmic lookups.

Every path of an operation is followed by the interpreter (engine/interp.py) without joining states; it counts the loop iterations and
the elements compared on each path.
  constant     the number of loop iterations of the operation is bounded over all sizes: no feasible path runs a loop more often than
               FAR times while others leave the operation after at least three different numbers of iterations
  descent      a lookup compares the key with at most one node per level of the tree
  bisection    a search of SIZE ordered elements compares the key with at most LIMIT of them"""
import importlib, multiprocessing, os, resource, sys, time, traceback
import build, layouts
from lin import const, sym
from witness import result

FAR = 9                 # loop iterations followed on one path of a constant-time operation
SIZE = 64               # elements searched by the bisection cases
LIMIT = 18              # 2 * (log2(SIZE) + 1) + 4
BUDGET = 600
DEADLINE = 100 if os.environ.get("VERIF_TIER", "quick") == "quick" else 250


def names(prefix, text):
    return set(prefix + x for x in text.split())


ENDS = "empty begin cbegin beginc end cend endc front cfront"
BACK = "back cback"
IT = "inc pinc deref arrow"
LIST = names("list_", "ctor push_front push_back pop_front pop_back insert erase splice splice_range splice_one swap " + ENDS + " " + BACK) \
    | names("list_it_", IT + " dec pdec") | names("list_cit_", IT + " dec pdec")
BEFORE = "before_begin cbefore_begin before_beginc"
BEND = " before_end cbefore_end before_endc"
SLIST = names("fl_", "ctor push_front pop_front insert erase splice_one swap %s %s" % (ENDS, BEFORE)) \
    | names("bl_", "ctor push_front push_back pop_front insert erase swap %s %s %s %s" % (ENDS, BACK, BEFORE, BEND)) \
    | names("lq_", "ctor push_front push_back pop_front insert erase roll_head swap %s %s %s %s" % (ENDS, BACK, BEFORE, BEND))
for _p in ("fl", "bl", "lq"):
    SLIST |= names(_p + "_it_", IT) | names(_p + "_cit_", IT + " conv")
INDEX = "ctor size capacity data cdata pop_back index cindex at cat " + ENDS + " " + BACK
VECTOR = names("ve_", INDEX + " swap push_back")
for _p in ("fb", "fn", "f1"):
    VECTOR |= names(_p + "_", INDEX + " push_back full max_size")
SVM = names("sm_", "ctor size " + ENDS)
VMAP = names("vm_", "ctor size empty begin beginc cbegin end endc cend")
CONSTANT = {"lists": LIST, "slists": SLIST, "vectors": VECTOR, "svm": SVM, "vmap": VMAP}
LOOK = ["find", "cfind", "lower", "clower", "upper", "cupper"]
DESCENTS = dict([("rb_" + x, 1) for x in LOOK] + [(p + x, 1) for p in ("st_", "mp_") for x in LOOK + ["count"]]
                + [(p + x, 2) for p in ("rb_", "st_", "mp_") for x in ("equal", "cequal")]
                + [("mp_at", 1), ("mp_cat", 1), ("rb_insert_unique", 1), ("rb_insert_equal", 1), ("st_insert", 1), ("mp_insert", 1), ("mp_idx", 2)])
BISECT = dict([("sm_" + x, 1) for x in ("find", "cfind", "lower_bound", "clower_bound", "upper_bound", "cupper_bound", "count", "at", "cat",
                                        "index", "insert", "equal_range", "cequal_range")]
              + [("al_" + x + s, 2 if x == "equal_range" else 1) for s in ("", "_c") for x in ("lower_bound", "upper_bound", "binary_search", "equal_range")])


def LEVELS(label):
    """levels of the highest left-leaning red-black tree of the case's black height"""
    return 2 * int(label.split("black height ")[1].split(",")[0])


def jobs():
    out = []
    for m, names_ in CONSTANT.items():
        for i, c in enumerate(_cases[m]):
            if c.op in names_ and "no room" not in c.label:
                out.append((m, "constant", i))
    out += [("trees", "descent", i) for i, c in enumerate(_cases["trees"]) if c.op in DESCENTS]
    for m in ("algos", "svm"):
        out += [(m, "bisection", i) for i, c in enumerate(_cases[m]) if c.op in BISECT and (m == "algos" or "n>=1" in c.label)]
    return out


_mods, _cases = {}, {}


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def _run(job):
    m, kind, i = job
    cm = importlib.import_module(m)
    mod, c = _mods[m], _cases[m][i]
    cls = getattr(cm, "ENGINE_CLASS", None) or __import__("interp").Engine
    e = cls(mod, dict(build.SEM, **getattr(cm, "SEM", {})), getattr(cm, "NODES", {}), alloc=getattr(cm, "alloc", None), **getattr(cm, "ENGINE", {}))
    e.meter, e.cut, e.order, e.deadline = True, True, c.order, time.time() + DEADLINE
    e.kexact = {"constant": FAR, "descent": 60, "bisection": 3 * SIZE}[kind]
    st, args = c.st.copy(), c.args
    if kind == "bisection":
        import cases
        assert st.assume_eq(sym("n" if m == "algos" else "nA") - SIZE)
        c = cases.Case(c.op, c.label + ", n = %d" % SIZE, st, args, c.post)
        st, args = c.st.copy(), c.args
    counts, worst = set(), (0, None)
    res = dict(job=job, op=c.op, label="%s: %s" % (kind, c.label), kind=kind, und=[], viol=None, exits=0)

    def post(eng, s):
        nonlocal worst
        if s.exact and not s.misc.get("vague") and eng.real(s):
            res["exits"] += 1
            counts.add(s.misc.get("work", 0))
            got = set(t for a in s.misc.get("asked", ()) for t in a
                      if (t[0] == "K" if kind == "descent" else t[0] == "V" and t[2].is_const()))
            if len(got) > worst[0]:
                worst = (len(got), s.trace)
        return []

    try:
        e.run(c.op, st, args, post, c.label)
    except KeyError as ex:
        res["und"].append("the entry is not analysed: %s" % str(ex)[:200])
    except RecursionError:
        res["und"].append("recursion depth")
    except Exception:
        res["und"].append("engine: " + traceback.format_exc().strip().splitlines()[-1])
    res["und"] += sorted(set(u[2] for u in e.undecided))
    res["counts"], res["worst"], res["steps"] = sorted(counts)[-3:], worst[0], e.steps
    if kind == "constant" and e.cutlog:
        where = sorted(e.cutlog)[0]
        if len(counts) >= 3:
            res["viol"] = ("constant", "the number of loop iterations grows with the number of elements", where)
        else:
            res["und"].append("a loop runs more than %d times" % FAR)
    elif kind == "descent" and worst[0] > LEVELS(c.label) * DESCENTS[c.op]:
        res["viol"] = ("descent", "compares the key with %d nodes of a tree with %d levels" % (worst[0], LEVELS(c.label)), c.op)
    elif kind == "bisection" and worst[0] > LIMIT * BISECT[c.op]:
        res["viol"] = ("bisection", "compares the key with %d of %d ordered elements" % (worst[0], SIZE), c.op)
    if not res["exits"] and not res["viol"] and not res["und"]:
        res["und"].append("no exit is reached")
    return res


def costs(pid):
    res = result()
    for m in list(CONSTANT) + ["trees", "algos"]:
        cm = importlib.import_module(m)
        _mods[m], _cases[m] = build.module(cm.UNIT), cm.cases()
        bad = build.layout_mismatch(_mods[m], getattr(cm, "SIZES", {})) or layouts.mismatch(cm.UNIT)
        if bad:
            res["undecided"].append({"op": cm.UNIT, "case": "layout", "why": [bad]})
            _cases[m] = []
    js = jobs()
    work = {}
    t0 = time.time()
    left = set(js)
    with multiprocessing.Pool(min(8, os.cpu_count() or 1), _limit) as pool:
        it = pool.imap_unordered(_run, js)
        for _ in js:
            try:
                r = it.next(max(1, BUDGET - (time.time() - t0)))
            except multiprocessing.TimeoutError:
                break
            left.discard(r["job"])
            res["obligations"] += 1
            work[r["kind"]] = work.get(r["kind"], 0) + 1
            if r["viol"]:
                rule, msg, where = r["viol"]
                res["violations"].append(dict(op=r["op"], label=r["label"], rule=rule, msg=msg, where=where))
            if r["und"]:
                res["undecided"].append({"op": r["op"], "case": r["label"], "why": r["und"][:3]})
            elif not r["viol"]:
                res["discharged"] += 1
            if res["obligations"] % 97 == 1:
                res["samples"].append({"op": r["op"], "case": r["label"], "exits": r["exits"], "loop iterations": r["counts"],
                                       "elements compared": r["worst"]})
        pool.terminate()
    for m, kind, i in sorted(left):
        res["obligations"] += 1
        res["undecided"].append({"op": _cases[m][i].op, "case": kind + ": " + _cases[m][i].label, "why": ["time budget exhausted"]})
    res["stats"].update(constant_time_cases=work.get("constant", 0), descents=work.get("descent", 0), bisections=work.get("bisection", 0),
                        loop_iterations_followed=FAR, elements_bisected=SIZE, elements_compared_at_most=LIMIT)
    return res
