"""C35: elements a container creates without a given value are value-initialised (seen with int, which has no constructor
to hide behind); the storage of fixed_vector is aligned for its elements (C04)."""
from cases import *
import re, os, build, interp

UNIT = "scalars.cpp"
NODES = {}


def alloc(eng, st, site, size, kind):
    """plain memory of known size whose contents are undefined until written"""
    if not size.is_const():
        return None
    st = st.copy()
    k = 0
    while "H%d" % k in st.objs:
        k += 1
    p = add_obj(st, "H%d" % k, size.c, {}, "heap")
    return [(st, p)]


class IntEngine(interp.Engine):
    def do_delete(self, st, p, kind):
        if p[0] == "p" and p[1] is not None and p[1][0] == "o" and st.objs[p[1][1]].kind == "heap":
            o = st.objs[p[1][1]]
            if not o.alive:
                self.report(st, "double-free", "releases storage twice")
                return []
            st = st.copy()
            st.objs[p[1][1]] = o._replace(alive=False, fields=())
            return [st]
        return super().do_delete(st, p, kind)


ENGINE_CLASS = IntEngine


def post(eng, st):
    r = st.spec["ret"]
    if r == ZERO:
        yield st, None
    elif r == UNDEF:
        yield st, ("not-initialised", "the new element is uninitialised memory")
    else:
        yield st, ("not-initialised", "the new element is %s" % (r,))


def aligned(align):
    def chk(eng, st):
        r = st.spec["ret"]
        if r[0] != "p" or r[1] != ("o", "v") or not r[2].is_const():
            raise Undecided("the first element is not inside the object: %r" % (r,))
        yield st, None if r[2].c % align == 0 else ("misaligned", "the first element is at offset %s, the element type is aligned to %d" % (r[2], align))
    return chk


def cases():
    with open(os.path.join(build.VERIF, "harness", UNIT)) as f:
        src = f.read()
    out = [Case(op, "", State(), [], post=post, kexact=8) for op in re.findall(r"^int (vi_\w+)\(\)", src, re.M)]
    for op, a in re.findall(r"^const void \*(al(\d+)_\w+)\(", src, re.M):
        st = State()
        p = add_obj(st, "v", 4096, {}, "cont")
        out.append(Case(op, "", st, [p], post=aligned(int(a))))
    return out
