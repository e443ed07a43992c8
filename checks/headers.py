"""C36: the headers can be used on their own, in any order and from any number of translation units. Decided by the compiler's
type checker (self-containedness, order) and by the linkage of what it emits (one-definition rule) over /repo's headers."""
import os, re, tempfile, shutil, subprocess, multiprocessing
import build
from witness import result
from freestand import clang, headers, STDS, CLASSES

OLD = "c++98"
NO98 = {"bitset.hpp", "ttl.hpp"}      # clang rejects bitset.hpp in C++98 (sizeof of a member in a static function); ttl.hpp includes it
OWN = {"vector.hpp": ["vector<int>"], "fixed_vector.hpp": ["fixed_vector<int, 4>", "fixed_vector<int, 1>"], "list.hpp": ["list<int>"],
       "forward_list.hpp": ["forward_list<int>"], "backward_list.hpp": ["backward_list<int>"], "lazy_queue.hpp": ["lazy_queue<int>"],
       "set.hpp": ["set<int>"], "map.hpp": ["map<int, long>"], "sorted_vector_map.hpp": ["sorted_vector_map<int, long>"],
       "vector_map.hpp": ["vector_map<int, long>"], "bitset.hpp": ["bitset<0>", "bitset<7>", "bitset<100>"],
       "array.hpp": ["array<int, 3>", "array<int, 0>"], "utility.hpp": ["pair<int, long>"], "functional.hpp": ["less<int>", "equal_to<int>"]}
EQUAL = ["vector<int>", "fixed_vector<int, 4>", "list<int>", "forward_list<int>", "backward_list<int>", "set<int>",
         "map<int, long>", "array<int, 3>", "pair<int, long>", "bitset<7>"]
INL = "-DRBTREE_INLINEABLE= -DRBTREE_INCLUDE_INLINEABLE="


# every function template of the algorithm, numeric and utility headers over pointers and (It) over the iterators of list
ALGOS = """
struct Pr { bool operator()(int x) const { return x > 1; } }; struct Op { int operator()(int x) const { return x; } };
struct Op2 { int operator()(int x, int y) const { return x + y; } }; struct Ge { int operator()() const { return 1; } };
template<class I> void algos(I f, I l, I g, I h, I o, int v) {
  using namespace ttl; less<int> lt; equal_to<int> eq; Pr p; Op op; Op2 op2; Ge ge;
  ttl::find(f, l, v); ttl::find_if(f, l, p); ttl::find_if_not(f, l, p); ttl::search(f, l, g, h); ttl::search(f, l, g, h, eq);
  ttl::search_n(f, l, 2, v); ttl::search_n(f, l, 2, v, eq); ttl::count(f, l, v); ttl::count_if(f, l, p); ttl::all_of(f, l, p);
  ttl::any_of(f, l, p); ttl::none_of(f, l, p); ttl::adjacent_find(f, l); ttl::adjacent_find(f, l, eq); ttl::equal(f, l, g);
  ttl::equal(f, l, g, eq); ttl::equal(f, l, g, h); ttl::equal(f, l, g, h, eq); ttl::mismatch(f, l, g); ttl::mismatch(f, l, g, eq);
  ttl::mismatch(f, l, g, h); ttl::mismatch(f, l, g, h, eq); ttl::for_each(f, l, op); ttl::iter_swap(f, g); ttl::swap_ranges(f, l, g);
  ttl::fill(f, l, v); ttl::fill_n(f, 2, v); ttl::copy(f, l, o); ttl::copy_if(f, l, o, p); ttl::copy_n(f, 2, o); ttl::copy_backward(f, l, o);
  ttl::generate(f, l, ge); ttl::generate_n(f, 2, ge); ttl::replace(f, l, v, 2); ttl::replace_if(f, l, p, v); ttl::replace_copy(f, l, o, v, 2);
  ttl::replace_copy_if(f, l, o, p, v); ttl::remove_copy(f, l, o, v); ttl::remove_copy_if(f, l, o, p); ttl::remove(f, l, v);
  ttl::remove_if(f, l, p); ttl::transform(f, l, o, op); ttl::transform(f, l, g, o, op2); ttl::reverse(f, l); ttl::reverse_copy(f, l, o);
  ttl::is_sorted_until(f, l); ttl::is_sorted(f, l); ttl::merge(f, l, g, h, o); ttl::min(v, 2); ttl::min(v, 2, lt); ttl::max(v, 2);
  ttl::max(v, 2, lt); ttl::minmax(v, v); ttl::minmax(v, v, lt); ttl::min_element(f, l); ttl::max_element(f, l); ttl::minmax_element(f, l);
  ttl::iota(f, l, v); ttl::accumulate(f, l, v);
}
template<class I> void sorted(I f, I l, int v) {
  ttl::less<int> lt; ttl::distance(f, l); ttl::advance(f, 1); ttl::lower_bound(f, l, v); ttl::lower_bound(f, l, v, lt); ttl::upper_bound(f, l, v);
  ttl::upper_bound(f, l, v, lt); ttl::binary_search(f, l, v); ttl::binary_search(f, l, v, lt); ttl::equal_range(f, l, v);
  ttl::equal_range(f, l, v, lt);
}
template<class C> void ranged(int *f, int *l) { C a(f, l), b; ttl::swap(a, b); b.assign(f, l); b.insert(b.begin(), f, l); b.swap(a); }
void use(int *p, ttl::list<int> &l, ttl::vector<int> &v) {
  algos(p, p, p, p, p, 1); algos(l.begin(), l.end(), l.begin(), l.end(), l.begin(), 1);
  algos(v.begin(), v.end(), v.begin(), v.end(), v.begin(), 1); sorted(p, p, 1); sorted(v.begin(), v.end(), 1);
  ranged<ttl::vector<int> >(p, p); ranged<ttl::fixed_vector<int, 4> >(p, p); ranged<ttl::list<int> >(p, p);
  ttl::pair<int, long> a = ttl::make_pair(1, 2L); ttl::pair<long, long> b(a); b = a; ttl::swap(a, a); a.swap(a);
  ttl::set<int> s(p, p); s.insert(p, p); ttl::map<int, long> m; m.insert(a);
}
"""


def inc(hs):
    return "".join('#include "ttl/%s"\n' % h for h in hs)


def insts(cs):
    return "namespace ttl {\n" + "".join("template class %s;\n" % c for c in cs) + "}\n"


def everything(std):
    cs = [c for c in CLASSES if not (std == OLD and c.startswith("bitset"))]
    out = insts(cs) + ALGOS
    for k, c in enumerate(EQUAL):
        if not (std == OLD and c.startswith("bitset")):
            out += "bool eq%d(const ttl::%s &a, const ttl::%s &b) { return a == b || a != b; }\n" % (k, c, c)
    return out


def first_error(stderr):
    for l in stderr.splitlines():
        m = re.match(r"(.*?):(\d+):\d+: (?:fatal error|error): (.*)", l)
        if m:
            f = m.group(1).replace(build.REPO + "/", "")
            return m.group(3), "(the including program)" if f.endswith("a.cpp") else "%s:%s" % (f, m.group(2))
    return stderr[:200], "?"


def job(j):
    kind, h, std, src = j
    r = clang(["-std=" + std, "-fsyntax-only"], src)
    return kind, h, std, (first_error(r.stderr) if r.returncode else None)


WEAK = ("linkonce", "linkonce_odr", "weak", "weak_odr", "internal", "private", "available_externally", "common", "appending")


def symbols(ll):
    """(strong definitions {name: source line}, other definitions, undefined names) of a module's text"""
    strong, other, undef, sub, dist = {}, set(), set(), {}, {}
    for l in ll.splitlines():
        m = re.match(r'^@("?[^"=]+"?) = (.*)', l)
        if m:
            n = m.group(1).strip('" ')
            w = m.group(2).split()
            if n.startswith("llvm."):
                continue
            if w[0] in ("external", "extern_weak"):
                undef.add(n)
            elif w[0] in WEAK:
                other.add(n)
            else:
                strong[n] = None
            continue
        m = re.match(r"^(define|declare) (.*?)@([\w.$]+)\((.*)", l)
        if m:
            n = m.group(3)
            if n.startswith("llvm."):
                continue
            if m.group(1) == "declare":
                undef.add(n)
            elif set(m.group(2).split()) & set(WEAK):
                other.add(n)
            else:
                d = re.search(r"!dbg !(\d+)", l)
                strong[n] = d.group(1) if d else None
            continue
        m = re.match(r"^!(\d+) = distinct !DISubprogram\(.*?file: !(\d+), line: (\d+)", l)
        if m:
            sub[m.group(1)] = (m.group(2), m.group(3))
        m = re.match(r'^!(\d+) = !DIFile\(filename: "([^"]*)"', l)
        if m:
            dist[m.group(1)] = m.group(2)
    where = {}
    for n, d in strong.items():
        f, line = sub.get(d, (None, None))
        where[n] = "%s:%s" % (dist.get(f, "?").replace(build.REPO + "/", ""), line) if f else n
    return where, other, undef


def emit(std, flags, src):
    d = tempfile.mkdtemp(prefix="ttlv.")
    try:
        p = os.path.join(d, "a.cpp")
        with open(p, "w") as f:
            f.write(src)
        r = subprocess.run([build.CLANG, "-w", "-I" + build.REPO, "-std=" + std, "-fno-exceptions", "-fno-rtti", "-O0", "-gline-tables-only",
                            "-S", "-emit-llvm", "-o", "-"] + flags + [p], capture_output=True, text=True)
        return (symbols(r.stdout), None) if r.returncode == 0 else (None, first_error(r.stderr))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def linkjob(j):
    return j[:2], emit(j[1], j[2], j[3])


def ours(n):
    return re.match(r"^_Z(TV|TI|TS|GV)?(NK?)?3ttl", n) is not None


def combine(pid):
    res = result()
    viol = {}

    def bad(op, rule, msg, where, label=""):
        viol.setdefault((op, rule, where), dict(op=op, label=label, rule=rule, msg=msg, where=where))
    hs = headers()
    jobs, links = [], []
    for std in STDS:
        ok = [h for h in hs if not (std == OLD and h in NO98)]
        for h in ok:
            jobs.append(("self-contained", h, std, inc([h, h])))
            if h in OWN:
                jobs.append(("own-instantiation", h, std, inc([h]) + insts(OWN[h])))
            rest = [x for x in ok if x != h]
            jobs.append(("order", h, std, inc([h] + rest[::-1]) + everything(std)))
            jobs.append(("order", h, std, inc(rest + [h]) + everything(std)))
        links.append(("headers", std, [], inc(ok)))
        links.append(("all", std, [], inc(ok) + everything(std)))
        use = inc(ok) + insts(["set<int>", "map<int, long>", "rbtree<int, int, select_same<int>, less<int> >"])
        for k in (0, 1):
            links.append(("out-of-line=%d" % k, std, (INL + str(k)).split(" "), use))
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
        rs = pool.map(job, jobs, chunksize=4)
        ls = dict(pool.map(linkjob, links, chunksize=1))
    count = {}
    why = {"self-contained": "a program that includes only this header (twice) does not compile",
           "own-instantiation": "a member of its class template does not compile with this header alone",
           "order": "including this header first or last, with all the others, does not compile"}
    for kind, h, std, err in rs:
        res["obligations"] += 1
        count[kind] = count.get(kind, 0) + 1
        if err is None:
            res["discharged"] += 1
        else:
            bad(h, kind, "%s (%s): %s" % (why[kind], std, err[0]), err[1], std)
    nsym = 0
    for (kind, std), (syms, err) in ls.items():
        if syms is None:
            bad(kind, "order", "all headers together do not compile (%s): %s" % (std, err[0]), err[1], std)
            continue
        strong, other, undef = syms
        nsym += len(strong) + len(other)
        res["obligations"] += 1 + len(strong) + len(other)
        n = 0
        if kind == "headers":
            for s in sorted(strong):
                n += 1
                bad(s, "one-definition", "every translation unit that includes the headers defines it again", strong[s], std)
        elif kind == "all":
            for s in sorted(x for x in strong if ours(x)):
                n += 1
                bad(s, "one-definition", "every translation unit that uses it defines it again", strong[s], std)
            for s in sorted(x for x in undef if ours(x)):
                n += 1
                bad(s, "undefined", "used by the headers but defined in none of them", s, std)
        elif kind == "out-of-line=0":
            for s in sorted(x for x in strong if ours(x)):
                n += 1
                bad(s, "one-definition", "defined even where the bodies are not to be included", strong[s], std)
            one = ls.get(("out-of-line=1", std))
            if one and one[0]:
                for s in sorted(x for x in undef if ours(x)):
                    res["obligations"] += 1
                    if s in one[0][0]:
                        res["discharged"] += 1
                    else:
                        bad(s, "undefined", "needed where the bodies are not included, but not defined (out of line) where they are", s, std)
        res["discharged"] += 1 + len(strong) + len(other) - n
    res["violations"] = list(viol.values())
    res["stats"] = dict(programs=count, symbols_examined=nsym, headers=hs, standards=list(STDS))
    res["samples"] = [{"program": k, "standard": std, "strong": len(s[0][0]), "weak or internal": len(s[0][1]), "undefined": sorted(s[0][2])[:6]}
                      for (k, std), s in ls.items() if s[0]]
    return res
