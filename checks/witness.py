"""Compile-time witnesses: programs whose obligations are static assertions decided by the compiler's type checker over
/repo's headers. C28 (traits) and the type-level half of C27 (const access)."""
import os, re, subprocess, tempfile, multiprocessing
import build

CLANG = build.CLANG


class Obl:
    def __init__(self, key, what, expr, header):
        self.key, self.what, self.expr, self.header = key, what, expr, header


def compile_obls(pre, obls, flags, assert_kw="static_assert"):
    """{index: message} of the obligations the compiler rejects; a second value for errors not tied to an obligation"""
    d = tempfile.mkdtemp(prefix="ttlv.")
    src = os.path.join(d, "w.cpp")
    try:
        lines = pre.split("\n")
        base = len(lines)
        for o in obls:
            lines.append('%s(%s, "%s");' % (assert_kw, o.expr, o.key))
        with open(src, "w") as f:
            f.write("\n".join(lines) + "\n")
        r = subprocess.run([CLANG, "-fsyntax-only", "-w", "-ferror-limit=0", "-fno-caret-diagnostics", "-ftemplate-backtrace-limit=0",
                            "-I" + build.REPO] + flags + [src], capture_output=True, text=True)
        if r.returncode == 0:
            return {}, []
        bad, other, cur = {}, [], None
        blocks = []
        for l in r.stderr.split("\n"):
            if re.search(r":\d+:\d+: (fatal )?error: ", l):
                blocks.append([l])
            elif blocks:
                blocks[-1].append(l)
        for b in blocks:
            hit = None
            for l in b:
                m = re.match(re.escape(src) + r":(\d+):", l)
                if m and int(m.group(1)) > base:
                    hit = int(m.group(1)) - base - 1
                    break
            if hit is None or "fatal error" in b[0]:
                other.append(b[0].replace(build.REPO + "/", ""))
            else:
                m = re.search(r"ttl/\w+\.hpp:\d+", b[0])
                kind = "" if "static assertion failed" in b[0] or "static_assert" in b[0] else re.sub(r".*error: ", "", b[0])
                bad.setdefault(hit, (kind, m.group(0) if m else None))
        return bad, other
    finally:
        subprocess.run(["rm", "-rf", d])


# ------------------------------------------------------------------ C28
SCALARS = """bool char|signed char|unsigned char|wchar_t short|unsigned short int|unsigned int long|unsigned long|long long|unsigned long long
float double|long double""".replace("|", ";").replace("\n", ";")


def type_table(std, cxx11):
    basic = ["bool", "char", "signed char", "unsigned char", "wchar_t", "short", "unsigned short", "int", "unsigned int", "long",
             "unsigned long", "long long", "unsigned long long", "float", "double", "long double"]
    other = ["Cls", "Uni", "Inc", "Fn0", "Fn1"]
    deviating = ["Enu", "MemO", "MemF"]
    if cxx11:
        deviating += ["EnuC", "decltype(nullptr)"]
    ts = []
    for b in basic + other + deviating:
        cvs = ["", "const ", "volatile ", "const volatile "] if b not in ("Fn0", "Fn1") else [""]
        for cv in cvs:
            ts.append((cv + b, b))
    for cv in ("", "const ", "volatile ", "const volatile "):
        ts.append((cv + "void", "void"))
    more = []
    for b in ("int", "const int", "volatile int", "const volatile int", "char", "Cls", "const Cls", "float", "Enu"):
        more += ["%s *" % b, "%s *const" % b, "%s *volatile" % b, "%s *const volatile" % b, "%s &" % b, "%s **" % b, "%s *const *" % b,
                 "%s *&" % b, "%s *const &" % b]
        if cxx11:
            more += ["%s &&" % b, "%s *&&" % b]
    more += ["void *", "const void *", "void *const", "Fn0 *", "Fn1 *const", "Fn0 &", "Inc *", "MemO *"]
    for x in more:
        ts.append((x, "ptr"))
    arr = []
    for b in ("int", "const int", "volatile int", "const volatile int", "Cls", "char", "double", "Enu"):
        arr += [("Arr3<%s>::type" % b), ("Arr0<%s>::type" % b), ("Arr23<%s>::type" % b), ("Arr3<%s>::type &" % b), ("Arr3<%s>::type *" % b)]
        arr += ["Arr3<%s *>::type" % b]
        if cxx11:
            arr += ["Arr3<%s>::type &&" % b]
    ts += [(a, "arr") for a in arr]
    return ts, deviating


PRE28 = """#include "ttl/type_traits.hpp"
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
class Cls { int x; public: int f(); }; union Uni { int a; float b; }; class Inc; enum Enu { e0 };
typedef void Fn0(); typedef int Fn1(int, const Cls &);
typedef int Cls::*MemO; typedef int (Cls::*MemF)();
template<class T> struct Arr3 { typedef T type[3]; }; template<class T> struct Arr0 { typedef T type[]; };
template<class T> struct Arr23 { typedef T type[2][3]; };
template<class T, class U> struct Same { static const bool value = __is_same(T, U); };
"""


def trait_obls(std, cxx11):
    ts, deviating = type_table(std, cxx11)
    out = []
    T = "ttl/type_traits.hpp"
    for t, b in ts:
        dev = b in deviating
        isnull = b == "decltype(nullptr)"

        def eq(tr, want):
            out.append(Obl("%s<%s>::value" % (tr, t), tr, "ttl::%s<%s>::value == (%s)" % (tr, t, want), T))
        eq("is_const", "__is_const(%s)" % t)
        eq("is_volatile", "__is_volatile(%s)" % t)
        eq("is_void", "__is_void(%s)" % t)
        eq("is_integral", "__is_integral(%s)" % t)
        eq("is_floating_point", "__is_floating_point(%s)" % t)
        eq("is_arithmetic", "__is_arithmetic(%s)" % t)
        eq("is_signed", "__is_integral(%s) && __is_signed(%s)" % (t, t))
        eq("is_unsigned", "__is_integral(%s) && __is_unsigned(%s) && !Same<__remove_cv(%s), bool>::value" % (t, t, t))
        if not isnull:
            eq("is_fundamental", "__is_fundamental(%s)" % t)
        if not dev:
            eq("is_scalar", "__is_scalar(%s)" % t)
        eq("is_pointer", "__is_pointer(%s)" % t)
        eq("is_array", "__is_array(%s)" % t)
        for tr, bi in (("remove_const", "__remove_const"), ("remove_volatile", "__remove_volatile"), ("remove_cv", "__remove_cv"),
                       ("remove_reference", "__remove_reference_t")):
            out.append(Obl("%s<%s>::type" % (tr, t), tr, "Same<ttl::%s<%s>::type, %s(%s)>::value" % (tr, t, bi, t), T))
        out.append(Obl("is_same<%s, itself>" % t, "is_same", "ttl::is_same<%s, %s>::value" % (t, t), T))
        out.append(Obl("is_same<%s, remove_cv>" % t, "is_same", "ttl::is_same<%s, __remove_cv(%s) >::value == __is_same(%s, __remove_cv(%s))" %
                       (t, t, t, t), T))
        out.append(Obl("is_same<%s, remove_reference>" % t, "is_same",
                       "ttl::is_same<%s, __remove_reference_t(%s) >::value == __is_same(%s, __remove_reference_t(%s))" % (t, t, t, t), T))
        if b != "void" and "void" not in b:
            out.append(Obl("is_same<%s, int>" % t, "is_same", "ttl::is_same<%s, int>::value == __is_same(%s, int)" % (t, t), T))
    for ty, v in (("int", "7"), ("int", "-3"), ("unsigned char", "255"), ("bool", "true"), ("bool", "false"), ("long", "-5000000000L")):
        if ty == "long":
            v = "-2000000000L"
        ic = "ttl::integral_constant<%s, %s>" % (ty, v)
        out.append(Obl(ic + "::value", "integral_constant", "%s::value == %s" % (ic, v), T))
        out.append(Obl(ic + "::value_type", "integral_constant", "Same<%s::value_type, %s>::value" % (ic, ty), T))
        out.append(Obl(ic + "::type", "integral_constant", "Same<%s::type, %s >::value" % (ic, ic), T))
    out.append(Obl("true_type", "true_type", "ttl::true_type::value", T))
    out.append(Obl("false_type", "false_type", "!ttl::false_type::value", T))
    for f in ("less", "greater", "equal_to", "not_equal_to"):
        for m, w in (("first_argument_type", "Cls"), ("second_argument_type", "Cls"), ("result_type", "bool")):
            out.append(Obl("%s::%s" % (f, m), f, "Same<ttl::%s<Cls>::%s, %s>::value" % (f, m, w), "ttl/functional.hpp"))
    return out


CONFIGS = [
    ("x86-64 C++17", ["-std=gnu++17"], True), ("x86-64 C++98", ["-std=gnu++98"], False), ("x86-64 C++11", ["-std=gnu++11"], True),
    ("x86-64 C++20", ["-std=c++20"], True), ("i386", ["-std=gnu++17", "-m32", "-ffreestanding"], True),
    ("unsigned char", ["-std=gnu++17", "-funsigned-char"], True), ("short wchar_t", ["-std=gnu++17", "-fshort-wchar"], True),
    ("avr", ["-std=gnu++17", "--target=avr", "-ffreestanding"], True),
    ("arm", ["-std=gnu++17", "--target=arm-none-eabi", "-ffreestanding"], True),
    ("windows", ["-std=gnu++17", "--target=x86_64-pc-windows-msvc", "-ffreestanding"], True),
]


def result():
    return dict(stats={}, errors=[], samples=[], violations=[], undecided=[], obligations=0, discharged=0)


def _cfg(c):
    name, flags, cxx11 = c
    obls = trait_obls(name, cxx11)
    pre = PRE28 + ("enum class EnuC : short { v };\n" if cxx11 else "\n")
    bad, other = compile_obls(pre, obls, flags, "static_assert" if cxx11 else "_Static_assert")
    return name, [(o.key, o.what, o.header) for o in obls], bad, other


def traits(pid):
    res = result()
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
        rs = pool.map(_cfg, CONFIGS, chunksize=1)
    for name, obls, bad, other in rs:
        res["obligations"] += len(obls)
        res["discharged"] += len(obls) - len(bad)
        for i, (kind, loc) in sorted(bad.items()):
            key, what, header = obls[i]
            res["violations"].append(dict(op=what, label=name, rule="classification" if not kind else "ill-formed",
                                          msg=key + (" differs from the language's answer" if not kind else ": " + kind), where=loc or "%s (%s)" % (header, what)))
        for o in other:
            if name == CONFIGS[0][0]:
                res["errors"].append("%s: %s" % (name, o))
            else:
                res["undecided"].append({"op": "headers", "case": name, "why": [o]})
        res["samples"].append({"configuration": name, "assertions": len(obls), "first": obls[0][0], "last": obls[-1][0]})
    res["stats"]["configurations"] = [c[0] for c in CONFIGS]
    return res


# ------------------------------------------------------------------ C27 (types)
PRE27 = """#include "ttl/ttl.hpp"
#include "ttl/forward_list.hpp"
#include "ttl/backward_list.hpp"
#include "ttl/lazy_queue.hpp"
#include "ttl/vector_map.hpp"
#include "ttl/sorted_vector_map.hpp"
#include "ttl/array.hpp"
#include "ttl/bitset.hpp"
#include "ttl/map.hpp"
#include "ttl/set.hpp"
struct V { int a; V(); V(const V &); V &operator=(const V &) &; ~V(); };
bool operator==(const V &, const V &); bool operator<(const V &, const V &);
struct Pr { bool operator()(const V &) const; bool operator()(const V &, const V &) const; };
typedef ttl::list<V> list; typedef ttl::forward_list<V> forward_list; typedef ttl::backward_list<V> backward_list;
typedef ttl::lazy_queue<V> lazy_queue; typedef ttl::vector<V> vector; typedef ttl::fixed_vector<V, 4> fixed_vector;
typedef ttl::array<V, 3> array; typedef ttl::array<V, 0> array0; typedef ttl::map<V, V> map; typedef ttl::set<V> set;
typedef ttl::sorted_vector_map<V, V> sorted_vector_map; typedef ttl::vector_map<V, V> vector_map;
typedef ttl::bitset<70> bitset; typedef ttl::bitset<0> bitset0;
typedef ttl::rbtree<V, V, ttl::select_same<V>, ttl::less<V> > rbtree; typedef ttl::pair<V, V> pair;
template<class T> struct Id { typedef T type; };
template<class A, class B> concept Conv = requires(A (*f)(), void (*g)(B)) { g(f()); };
template<class A, class B> concept Cons = __is_constructible(B, A) || __is_constructible(B, A &);
template<class A, class B> concept Asg = requires(A &a, B &b) { b = a; };
"""

SEQ = ["list", "forward_list", "backward_list", "lazy_queue", "vector", "fixed_vector", "array", "array0"]
RND = ["vector", "fixed_vector", "array", "array0"]
ASSOC = ["map", "sorted_vector_map", "vector_map"]
KEYED = ["map", "set", "sorted_vector_map"]
LISTS = ["list", "forward_list", "backward_list", "lazy_queue"]


def const_obls():
    """(concept definitions, obligations)"""
    defs, obls = [], []

    def q(params, expr):
        n = "q%d" % len(defs)
        defs.append("template<class C> concept %s = requires(C &c, V v%s) { %s; };" % (n, ", " + params if params else "", expr))
        return n

    def header(c):
        return "ttl/%s.hpp" % {"array0": "array", "bitset0": "bitset", "pair": "utility"}.get(c, c)

    def add(conts, expr, params="", control=True):
        """expr must be ill-formed on a const container (and well-formed on a mutable one)"""
        for c in conts:
            p = params.replace("CT", "typename " + c).replace("typename ", "") if params else ""
            n = q(p.replace("CT", c), expr.replace("CT", c))
            obls.append(Obl("%s through a const %s must not compile" % (expr.replace("CT", c), c), c, "!%s<const %s>" % (n, c), header(c)))
            if control and c not in ("set",):
                obls.append(Obl("%s through a mutable %s compiles" % (expr.replace("CT", c), c), c, "%s<%s>" % (n, c), header(c)))

    def never(c, expr, params):
        n = q(params, expr)
        obls.append(Obl("%s with %s must not compile" % (expr, params), c, "!%s<%s>" % (n, c), header(c)))

    def ok(c, expr, params):
        n = q(params, expr)
        obls.append(Obl("%s with %s compiles" % (expr, params), c, "%s<%s>" % (n, c), header(c)))

    # element access
    add([x for x in SEQ], "c.front() = v")
    add([x for x in SEQ], "c.front().a = 1")
    add([x for x in SEQ if x != "forward_list"], "c.back() = v")
    add(RND, "c[0] = v")
    add(RND, "c.at(0) = v")
    add(RND, "c[0].a = 1")
    add(RND, "*c.data() = v")
    add(SEQ + ["set"], "*c.begin() = v")
    add(SEQ + ["set"], "c.begin()->a = 1")
    add(["list", "set"], "*--c.end() = v")
    add(["vector", "fixed_vector", "array"], "*(c.end() - 1) = v")
    add(["forward_list"], "*c.before_begin() = v")
    for c in SEQ + ["set"]:
        never(c, "*c.cbegin() = v", "")
        never(c, "c.cbegin()->a = 1", "")
        never(c, "*c.cend() = v", "")
    add(ASSOC, "c.begin()->second = v")
    add(ASSOC, "(*c.begin()).second = v")
    add(ASSOC, "c.find(v)->second = v")
    add(ASSOC, "c.at(v) = v")
    add(ASSOC, "c[v] = v")
    for c in ASSOC:
        never(c, "c.cbegin()->second = v", "")
        never(c, "c.cbegin()->first = v", "")
        never(c, "(*c.cbegin()).second = v", "")
    for look in ("find(v)", "lower_bound(v)", "upper_bound(v)", "equal_range(v).first", "equal_range(v).second"):
        add(["set"], "*c.%s = v" % look, control=False)
        add(["map", "sorted_vector_map"], "c.%s->second = v" % look)
        add(["rbtree"], "c.%s->data = v" % look)
        add(["rbtree"], "c.%s->parent = 0" % look)
    add(["rbtree"], "c.get_root()->data = v")
    add(["rbtree"], "c.end()->parent = 0")
    # iterators obtained from a const container
    for c in SEQ[:6] + KEYED + ["vector_map"]:
        for e in ("begin()", "end()") + (("find(v)",) if c in KEYED + ["vector_map"] else ()) + \
                (("lower_bound(v)", "upper_bound(v)") if c in KEYED else ()):
            add([c], "static_cast<CT::iterator>(c.%s)" % e)
        ok(c, "static_cast<%s::const_iterator>(c.begin())" % c, "")
    # operations that modify
    add([x for x in SEQ[:6]], "c.clear()")
    add(["list", "vector", "fixed_vector", "backward_list", "lazy_queue"], "c.push_back(v)")
    add(["list", "forward_list", "backward_list", "lazy_queue"], "c.push_front(v)")
    add(["list", "forward_list", "backward_list", "lazy_queue"], "c.pop_front()")
    add(["list", "vector", "fixed_vector"], "c.pop_back()")
    add(["list", "vector", "fixed_vector"], "c.insert(c.begin(), v)")
    add(["list", "vector", "fixed_vector"], "c.insert(m.begin(), v)", "CT &m")
    add(["list", "vector", "fixed_vector"], "c.erase(m.begin())", "CT &m")
    add(["list", "vector"], "c.resize(3)")
    add(["vector"], "c.reserve(3)")
    add(["forward_list", "backward_list", "lazy_queue"], "c.insert_after(m.before_begin(), v)", "CT &m")
    add(["forward_list", "backward_list", "lazy_queue"], "c.erase_after(m.before_begin())", "CT &m")
    add(["list"], "c.reverse()")
    add(["list"], "c.splice(m.begin(), m)", "CT &m")
    add(["list"], "m.splice(m.begin(), c)", "CT &m")
    add(["list"], "c.merge(m)", "CT &m")
    add(["list"], "m.merge(c)", "CT &m")
    add(["list"], "c.remove(v)")
    add(["list"], "c.remove_if(p)", "Pr p")
    add(["list"], "c.unique()")
    add(["lazy_queue"], "c.cleanup()")
    add(SEQ + KEYED, "c = m", "CT &m")
    add(["list", "forward_list", "backward_list", "lazy_queue", "vector", "fixed_vector", "array", "pair"], "c.swap(m)", "CT &m")
    add(["list", "forward_list", "backward_list", "lazy_queue", "vector", "fixed_vector", "array", "pair"], "m.swap(c)", "CT &m")
    add(["array", "array0"], "c.fill(v)")
    add(["map", "set", "sorted_vector_map"], "c.clear()")
    add(["map", "sorted_vector_map"], "c.insert(p)", "CT::value_type p")
    add(["set"], "c.insert(v)")
    add(["map", "set"], "c.erase(v)")
    add(["rbtree"], "c.insert_unique(v)")
    add(["rbtree"], "c.insert_equal(v)")
    add(["rbtree"], "c.remove(v)")
    add(["rbtree"], "c.clear()")
    add(["pair"], "c = m", "CT &m")
    add(["pair"], "c.first = v")
    add(["bitset", "bitset0"], "c.set()")
    add(["bitset", "bitset0"], "c.reset()")
    add(["bitset", "bitset0"], "c.flip()")
    add(["bitset", "bitset0"], "c.set(0)")
    add(["bitset", "bitset0"], "c.reset(0)")
    add(["bitset", "bitset0"], "c.flip(0)")
    add(["bitset"], "c[0] = true")
    add(["bitset"], "c[0].flip()")
    for o in ("&=", "|=", "^=", "="):
        add(["bitset", "bitset0"], "c %s m" % o, "CT &m")
    for o in ("<<=", ">>="):
        add(["bitset", "bitset0"], "c %s 1" % o)
    # iterator types
    def qi(expr):
        n = "q%d" % len(defs)
        defs.append("template<class I> concept %s = requires(I &i, V v) { %s; };" % (n, expr))
        return n
    for c in SEQ + KEYED + ["vector_map"]:
        i, k = c + "::iterator", c + "::const_iterator"
        w = ".second" if c in ASSOC else ""
        for e in ("(*i)%s = v" % w, "(*i++)%s = v" % w, "(*++i)%s = v" % w, "i->%s = %s" % ("second" if w else "a", "v" if w else "1")):
            n = qi(e)
            obls.append(Obl("%s with a %s i must not compile" % (e, k), c, "!%s<%s>" % (n, k), header(c)))
            if c != "set":
                obls.append(Obl("%s with a %s i compiles" % (e, i), c, "%s<%s>" % (n, i), header(c)))
        obls.append(Obl("%s converts to %s" % (i, k), c, "Conv<%s, %s>" % (i, k), header(c)))
        obls.append(Obl("%s must not convert to %s" % (k, i), c, "!Conv<%s, %s>" % (k, i), header(c)))
        obls.append(Obl("%s must not be constructed from %s" % (i, k), c, "!Cons<%s, %s>" % (k, i), header(c)))
        obls.append(Obl("%s must not be assigned from %s" % (i, k), c, "!Asg<%s, %s>" % (k, i), header(c)))
    # read access is there
    for c in SEQ:
        ok("const " + c, "v = *c.begin(), v = c.front()", "")
    for c in KEYED + ["vector_map"]:
        ok("const " + c, "*c.begin(), c.find(v) == c.end(), c.count(v)", "")
    return defs, obls


def constness(pid):
    res = result()
    defs, obls = const_obls()
    bad, other = compile_obls(PRE27 + "\n".join(defs), obls, ["-std=c++20"])
    res["obligations"] += len(obls)
    res["discharged"] += len(obls) - len(bad)
    for i, (kind, loc) in sorted(bad.items()):
        o = obls[i]
        if not kind and (o.key.endswith(" compiles") or "converts to" in o.key):
            res["violations"].append(dict(op=o.what, label="type-level witness", rule="mutable-access",
                                          msg=o.key + ": it does not", where="%s: %s" % (o.header, o.key)))
        elif not kind:
            res["violations"].append(dict(op=o.what, label="type-level witness", rule="const-access",
                                          msg=o.key.replace(" must not compile", " compiles").replace("must not", "does"), where="%s: %s" % (o.header, o.key)))
        else:
            res["undecided"].append({"op": o.what, "case": o.key, "why": [kind]})
    for o in other:
        res["errors"].append(o)
    res["stats"]["type_witnesses"] = len(obls)
    res["samples"] += [{"witness": o.key} for o in obls[::60]]
    return res


# ------------------------------------------------------------------ C04 (alignment)
ALIGNED = ["char", "short", "int", "long long", "double", "long double", "void *", "Two", "ttl::fixed_vector<long double, 1>"]


def alignment(pid):
    """alignment and size of fixed_vector for element types of every fundamental alignment, under four standards"""
    res = result()
    for std in ("c++98", "gnu++98", "c++11", "gnu++17", "c++20"):
        new = std not in ("c++98", "gnu++98")
        ts = ALIGNED + (["Over"] if new else [])
        pre = '#include "ttl/fixed_vector.hpp"\nstruct Two { char c[2]; };\n' + ("struct alignas(64) Over { char c; };\n" if new else "")
        obls = []
        for t in ts:
            for n in (1, 3):
                c = "ttl::fixed_vector<%s, %d>" % (t, n)
                obls.append(Obl("fixed_vector<%s, %d> is not aligned for its elements" % (t, n), "fixed_vector", "(__alignof__(%s) %% __alignof__(%s)) == 0" % (c, t), "ttl/fixed_vector.hpp"))
                obls.append(Obl("fixed_vector<%s, %d> has no room for its elements" % (t, n), "fixed_vector", "(sizeof(%s) >= %d * sizeof(%s))" % (c, n, t), "ttl/fixed_vector.hpp"))
        bad, other = compile_obls(pre, obls, ["-std=" + std], "_Static_assert")
        res["obligations"] += len(obls)
        res["discharged"] += len(obls) - len(bad)
        for i, (kind, loc) in sorted(bad.items()):
            if kind:
                res["undecided"].append({"op": obls[i].what, "case": std, "why": [kind]})
            else:
                res["violations"].append(dict(op=obls[i].what, label=std, rule="misaligned", msg=obls[i].key, where=loc or "ttl/fixed_vector.hpp (storage of %s)" % obls[i].expr))
        for o in other:
            res["undecided"].append({"op": "headers", "case": std, "why": [o]})
        res["samples"].append({"standard": std, "assertions": len(obls), "first": obls[0].expr, "last": obls[-1].expr})
    return res
