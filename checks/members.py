"""C37: member types and return types. The types a container or iterator names are the types its operations have: compile-time
witnesses decided by the type checker over /repo's headers."""
import multiprocessing, os
from witness import Obl, compile_obls, result, PRE27

PRE = PRE27.replace("template<class T> struct Id { typedef T type; };", """template<class T> T &mut(); template<class T> const T &cst();
struct K { int k; }; bool operator==(const K &, const K &); bool operator<(const K &, const K &);
typedef ttl::map<K, V> map2; typedef ttl::sorted_vector_map<K, V> sorted_vector_map2; typedef ttl::vector_map<K, V> vector_map2; typedef ttl::set<K> set2;
typedef ttl::rbtree<K, V, struct Ko, ttl::less<K> > rbtree2; typedef ttl::pair<K, V> pair2;
template<class A, class B> struct Same { static const bool value = __is_same(A, B); };
""")
PRE = PRE.split("template<class A, class B> concept Conv")[0]
SEQ = {"list": "V", "forward_list": "V", "backward_list": "V", "lazy_queue": "V", "vector": "V", "fixed_vector": "V", "array": "V", "array0": "V"}
ASSOC = {"map2": "ttl::pair<const K, V>", "sorted_vector_map2": "ttl::pair<K, V>", "vector_map2": "ttl::pair<K, V>"}
KEYED = ["map2", "set2", "sorted_vector_map2"]
HDR = {"array0": "array", "map2": "map", "set2": "set", "sorted_vector_map2": "sorted_vector_map", "vector_map2": "vector_map",
       "pair2": "utility", "bitset0": "bitset"}
CONFIGS = [("c++11", ["-std=c++11"]), ("gnu++17", ["-std=gnu++17"]), ("c++20", ["-std=c++20"])]


def obligations():
    out = []

    def same(c, what, a, b):
        out.append(Obl("%s: %s is %s" % (c.rstrip("2"), what, b), c.rstrip("20"), "Same<%s, %s >::value" % (a, b), "ttl/%s.hpp" % HDR.get(c, c)))

    def op(c, expr, want, const=False):
        o = "%s<%s>()" % ("cst" if const else "mut", c)
        same(c, ("const " if const else "") + "." + expr, "decltype(%s.%s)" % (o, expr), want)
    values = dict(SEQ)
    values.update(ASSOC)
    values["set2"] = "K"
    for c, v in values.items():
        same(c, "value_type", c + "::value_type", v)
        same(c, "reference", c + "::reference", "%s &" % v)
        same(c, "const_reference", c + "::const_reference", "const %s &" % v)
        if not c.startswith("array"):
            same(c, "pointer", c + "::pointer", "%s *" % v)
            same(c, "const_pointer", c + "::const_pointer", "const %s *" % v)
        same(c, "size_type", c + "::size_type", "ttl::size_t")
        same(c, "difference_type", c + "::difference_type", "ttl::ptrdiff_t")
        i, k = c + "::iterator", c + "::const_iterator"
        for f in ("begin", "end"):
            op(c, f + "()", i)
            op(c, f + "()", k, True)
            op(c, "c%s()" % f, k, True)
        op(c, "empty()", "bool", True)
        op(c, "max_size()", c + "::size_type", True)
        if c not in ("map2", "set2", "forward_list", "backward_list", "lazy_queue"):
            op(c, "size()", c + "::size_type", True)
        raw = c in ("vector", "fixed_vector", "array", "array0", "vector_map2")
        for it, q in ((i, ""), (k, "const ")):
            m = "mut<%s>()" % it
            same(c, "*(%s)" % it, "decltype(*%s)" % m, "%s%s &" % (q, v))
            same(c, "++(%s)" % it, "decltype(++%s)" % m, it + " &")
            same(c, "(%s)++" % it, "decltype(%s++)" % m, it)
            same(c, "*(%s)++" % it, "decltype(*%s++)" % m, "%s%s &" % (q, v))
            same(c, "(%s) == (%s)" % (it, it), "decltype(cst<%s>() == cst<%s>())" % (it, it), "bool")
            same(c, "(%s) != (%s)" % (it, it), "decltype(cst<%s>() != cst<%s>())" % (it, it), "bool")
            if c not in ("forward_list", "backward_list", "lazy_queue"):
                same(c, "--(%s)" % it, "decltype(--%s)" % m, it + " &")
                same(c, "(%s)--" % it, "decltype(%s--)" % m, it)
            if raw:
                same(c, "(%s) - (%s)" % (it, it), "decltype(%s - %s)" % (m, m), "ttl::ptrdiff_t")
            else:
                same(c, "(%s).operator->()" % it, "decltype(%s.operator->())" % m, "%s%s *" % (q, v))
                same(c, it + "::value_type", it + "::value_type", v)
                same(c, it + "::reference", it + "::reference", "decltype(*%s)" % m)
                same(c, it + "::pointer", it + "::pointer", "decltype(%s.operator->())" % m)
                same(c, it + "::difference_type", it + "::difference_type", c + "::difference_type")
    for c in SEQ:
        r, k, i = c + "::reference", c + "::const_reference", c + "::iterator"
        get = ["front()"] + (["back()"] if c != "forward_list" else []) + (["operator[](1)", "at(1)"] if c in ("vector", "fixed_vector", "array", "array0") else [])
        for g in get:
            op(c, g, r)
            op(c, g, k, True)
        if c in ("vector", "fixed_vector"):
            op(c, "data()", "V *")
            op(c, "data()", "const V *", True)
            op(c, "capacity()", c + "::size_type", True)
        same(c, "a = b", "decltype(mut<%s>() = cst<%s>())" % (c, c), c + " &")
        if c == "lazy_queue":
            continue
        for o in ("==", "!="):
            same(c, "a %s b" % o, "decltype(cst<%s>() %s cst<%s>())" % (c, o, c), "bool")
    for c in ("list", "vector", "fixed_vector"):
        i, b = c + "::iterator", "mut<%s>().begin()" % c
        op(c, "insert(%s, cst<V>())" % b, i)
        op(c, "erase(%s)" % b, i)
        op(c, "erase(%s, %s)" % (b, b), i)
        if c != "list":
            op(c, "insert(%s, 2, cst<V>())" % b, i)
            op(c, "insert(%s, (V *)0, (V *)0)" % b, i)
    for c in ("forward_list", "backward_list", "lazy_queue"):
        i, b = c + "::iterator", "mut<%s>().before_begin()" % c
        op(c, "before_begin()", i)
        op(c, "before_begin()", c + "::const_iterator", True)
        op(c, "cbefore_begin()", c + "::const_iterator", True)
        op(c, "insert_after(%s, cst<V>())" % b, i)
        op(c, "erase_after(%s)" % b, i)
    for c in KEYED + ["vector_map2"]:
        i, k = c + "::iterator", c + "::const_iterator"
        same(c, "key_type", c + "::key_type", "K")
        if c != "set2":
            same(c, "mapped_type", c + "::mapped_type", "V")
            op(c, "operator[](cst<K>())", "V &")
            op(c, "at(cst<K>())", "V &")
            op(c, "at(cst<K>())", "const V &", True)
        if c != "vector_map2":
            same(c, "key_compare", c + "::key_compare", "ttl::less<K>")
        op(c, "find(cst<K>())", i)
        op(c, "find(cst<K>())", k, True)
        op(c, "count(cst<K>())", c + "::size_type", True)
        op(c, "insert(cst<%s::value_type>())" % c, "ttl::pair<%s, bool>" % i)
        if c == "vector_map2":
            continue
        for f in ("lower_bound", "upper_bound"):
            op(c, f + "(cst<K>())", i)
            op(c, f + "(cst<K>())", k, True)
        op(c, "equal_range(cst<K>())", "ttl::pair<%s, %s>" % (i, i))
        op(c, "equal_range(cst<K>())", "ttl::pair<%s, %s>" % (k, k), True)
        if c in ("map2", "set2"):
            op(c, "erase(cst<K>())", c + "::size_type")
            same(c, "a = b", "decltype(mut<%s>() = cst<%s>())" % (c, c), c + " &")
        if c == "sorted_vector_map2":
            same(c, "value_comp()(a, b)", "decltype(cst<%s>().value_comp()(cst<%s::value_type>(), cst<%s::value_type>()))" % (c, c, c), "bool")
    same("pair2", "first_type", "pair2::first_type", "K")
    same("pair2", "second_type", "pair2::second_type", "V")
    same("pair2", "first", "decltype(pair2::first)", "K")
    same("pair2", "second", "decltype(pair2::second)", "V")
    same("pair2", "make_pair(a, b)", "decltype(ttl::make_pair(cst<K>(), cst<V>()))", "pair2")
    for o in ("==", "!="):
        same("pair2", "a %s b" % o, "decltype(cst<pair2>() %s cst<pair2>())" % o, "bool")
    for b in ("bitset", "bitset0"):
        for f in ("count()", "size()"):
            op(b, f, "ttl::size_t", True)
        for f in ("all()", "any()", "none()", "test(1)", "operator[](1)"):
            op(b, f, "bool", True)
        for f in ("set()", "set(1)", "set(1, true)", "reset()", "reset(1)", "flip()", "flip(1)", "operator<<=(1)", "operator>>=(1)",
                  "operator&=(cst<%s>())" % b, "operator|=(cst<%s>())" % b, "operator^=(cst<%s>())" % b):
            op(b, f, b + " &")
        for f in ("operator~()", "operator<<(1)", "operator>>(1)"):
            op(b, f, b, True)
        op(b, "to_ulong()", "unsigned long", True)
        op(b, "to_ullong()", "unsigned long long", True)
    for f in ("less", "greater", "equal_to", "not_equal_to"):
        t = "ttl::%s<K>" % f
        for n, w in (("first_argument_type", "K"), ("second_argument_type", "K"), ("result_type", "bool")):
            out.append(Obl("%s<K>::%s is %s" % (f, n, w), f, "Same<%s::%s, %s>::value" % (t, n, w), "ttl/functional.hpp"))
    P = "(V *)0"
    ALG = [("find(%s, %s, cst<V>())", "V *"), ("lower_bound(%s, %s, cst<V>())", "V *"), ("upper_bound(%s, %s, cst<V>())", "V *"),
           ("equal_range(%s, %s, cst<V>())", "ttl::pair<V *, V *>"), ("binary_search(%s, %s, cst<V>())", "bool"),
           ("count(%s, %s, cst<V>())", None), ("adjacent_find(%s, %s)", "V *"), ("min_element(%s, %s)", "V *"),
           ("max_element(%s, %s)", "V *"), ("minmax_element(%s, %s)", "ttl::pair<V *, V *>"), ("is_sorted(%s, %s)", "bool"),
           ("is_sorted_until(%s, %s)", "V *"), ("remove(%s, %s, cst<V>())", "V *"),
           ("copy(%s, %s, mut<list>().begin())", "list::iterator"), ("mismatch(%s, %s, mut<list>().begin())", "ttl::pair<V *, list::iterator>"),
           ("swap_ranges(%s, %s, mut<list>().begin())", "list::iterator"), ("reverse_copy(%s, %s, mut<list>().begin())", "list::iterator"),
           ("equal(%s, %s, (const V *)0)", "bool"), ("search(%s, %s, (const V *)0, (const V *)0)", "V *")]
    for e, w in ALG:
        if w:
            e = e % (P, P)
            out.append(Obl("%s gives %s" % (e, w), e.split("(")[0], "Same<decltype(ttl::%s), %s >::value" % (e, w), "ttl/algorithm.hpp"))
    for f in ("min", "max"):
        out.append(Obl("%s(a, b) gives const V &" % f, f, "Same<decltype(ttl::%s(cst<V>(), cst<V>())), const V &>::value" % f, "ttl/algorithm.hpp"))
    return out


def _cfg(c):
    obls = obligations()
    bad, other = compile_obls(PRE, obls, c[1])
    return c[0], [(o.key, o.what, o.header) for o in obls], bad, other


def members(pid):
    res = result()
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
        rs = pool.map(_cfg, CONFIGS, chunksize=1)
    seen = set()
    for name, obls, bad, other in rs:
        res["obligations"] += len(obls)
        res["discharged"] += len(obls) - len(bad)
        for i, (kind, loc) in sorted(bad.items()):
            key, what, header = obls[i]
            if key in seen:
                continue
            seen.add(key)
            res["violations"].append(dict(op=what, label=name, rule="ill-formed" if kind else "type",
                                          msg=key + (": " + kind if kind else ": it is not"), where=loc or "%s (%s)" % (header, what)))
        for o in other:
            if name == CONFIGS[1][0]:
                res["errors"].append("%s: %s" % (name, o))
            else:
                res["undecided"].append({"op": "headers", "case": name, "why": [o]})
        res["samples"].append({"configuration": name, "assertions": len(obls), "first": obls[0][0], "last": obls[-1][0]})
    res["stats"]["configurations"] = [c[0] for c in CONFIGS]
    return res
