"""C38: what the operations require of their parameters.  Every operation is instantiated with archetypes: element, predicate and iterator
types that have the operations the requirement lists and nothing else.  The type checker decides: an instantiation that needs more is
ill-formed."""
import multiprocessing, os, re, subprocess, tempfile
import build
from build import CLANG
from witness import result

PRE = r'''
#include "ttl/ttl.hpp"
%s
struct Init {};
struct Any { template<class T> operator T &() const; };
template<class T> T &the();
struct Bool { operator bool() const; };
#define COPY_(X) X(Init); X(const X &); ~X();
// elements: copying only, and what the letters add: D default construction, A assignment, E ==, L <
template<int Z> struct C { COPY_(C) void operator=(const C &) = delete; };
template<int Z> struct CD { COPY_(CD) CD(); void operator=(const CD &) = delete; };
template<int Z> struct CA { COPY_(CA) CA &operator=(const CA &); };
template<int Z> struct CDA { COPY_(CDA) CDA(); CDA &operator=(const CDA &); };
template<int Z> struct CE { COPY_(CE) void operator=(const CE &) = delete; friend Bool operator==(const CE &, const CE &) { return Bool(); } };
template<int Z> struct CEA { COPY_(CEA) CEA &operator=(const CEA &); friend Bool operator==(const CEA &, const CEA &) { return Bool(); } };
template<int Z> struct CL { COPY_(CL) void operator=(const CL &) = delete; friend Bool operator<(const CL &, const CL &) { return Bool(); } };
template<int Z> struct CEL { COPY_(CEL) void operator=(const CEL &) = delete; friend Bool operator<(const CEL &, const CEL &) { return Bool(); }
   friend Bool operator==(const CEL &, const CEL &) { return Bool(); } };
// an element with allocation functions of its own (for single objects of its own)
template<int Z> struct CN { COPY_(CN) CN(); CN &operator=(const CN &); void *operator new(ttl::size_t); void operator delete(void *);
   friend bool operator==(const CN &, const CN &) { return true; } friend bool operator<(const CN &, const CN &) { return true; } };
template<int Z> struct CI { COPY_(CI) CI &operator=(const CI &); CI &operator++(); };
template<int Z> struct CP { COPY_(CP) CP &operator=(const CP &); friend CP operator+(const CP &a, const CP &) { return a; } };
// nothing but what is compared, for searched values
template<int Z> struct NE { NE(const NE &) = delete; void operator=(const NE &) = delete; friend Bool operator==(const NE &, const NE &) { return Bool(); } };
template<int Z> struct NL { NL(const NL &) = delete; void operator=(const NL &) = delete; friend Bool operator<(const NL &, const NL &) { return Bool(); } };
template<int Z> struct N0 { N0(const N0 &) = delete; void operator=(const N0 &) = delete; };
// values of another type than the elements
template<int Z> struct W { W(const W &) = delete; void operator=(const W &) = delete; };
template<int Z> struct WE { WE(const WE &) = delete; void operator=(const WE &) = delete; friend Bool operator==(const WE &, const W<Z> &) { return Bool(); } };
template<int Z> struct WL { WL(const WL &) = delete; void operator=(const WL &) = delete; friend Bool operator<(const WL &, const W<Z> &) { return Bool(); } };
template<int Z> struct WG { WG(const WG &) = delete; void operator=(const WG &) = delete; friend Bool operator<(const W<Z> &, const WG &) { return Bool(); } };
template<int Z> struct WLG { WLG(const WLG &) = delete; void operator=(const WLG &) = delete; friend Bool operator<(const W<Z> &, const WLG &) { return Bool(); }
   friend Bool operator<(const WLG &, const W<Z> &) { return Bool(); } };
// function objects: copied and called, result only convertible to bool
template<class T> struct P1 { P1(const P1 &); ~P1(); void operator=(const P1 &) = delete; Bool operator()(const T &); };
template<class T, class U = T> struct P2 { P2(const P2 &); ~P2(); void operator=(const P2 &) = delete; Bool operator()(const T &, const U &); };
template<class T> struct Less { Bool operator()(const T &, const T &) const; };
template<class T> struct F1 { F1(const F1 &); ~F1(); void operator=(const F1 &) = delete; const T &operator()(const T &); };
template<class T> struct F2 { F2(const F2 &); ~F2(); void operator=(const F2 &) = delete; const T &operator()(const T &, const T &); };
template<class T> struct FV { FV(const FV &); ~FV(); void operator=(const FV &) = delete; void operator()(const T &); };
template<class T> struct G0 { G0(const G0 &); ~G0(); void operator=(const G0 &) = delete; const T &operator()(); };
// iterators
template<class T> struct In { In(const In &); ~In(); In &operator=(const In &); const T &operator*() const; const T *operator->() const; In &operator++(); In operator++(int);
   friend Bool operator==(const In &, const In &) { return Bool(); } friend Bool operator!=(const In &, const In &) { return Bool(); } };
template<class T> struct Put { void operator=(const T &) const; };
template<class T> struct Out { Out(const Out &); ~Out(); Out &operator=(const Out &); Put<T> operator*() const; Out &operator++(); Out operator++(int); };
template<class T> struct Fw { Fw(); Fw(const Fw &); ~Fw(); Fw &operator=(const Fw &); T &operator*() const; Fw &operator++(); Fw operator++(int);
   friend Bool operator==(const Fw &, const Fw &) { return Bool(); } friend Bool operator!=(const Fw &, const Fw &) { return Bool(); } };
template<class T> struct Bi { Bi(); Bi(const Bi &); ~Bi(); Bi &operator=(const Bi &); T &operator*() const; Bi &operator++(); Bi operator++(int);
   Bi &operator--(); Bi operator--(int);
   friend Bool operator==(const Bi &, const Bi &) { return Bool(); } friend Bool operator!=(const Bi &, const Bi &) { return Bool(); } };
template<class T> struct Ra { Ra(); Ra(const Ra &); ~Ra(); Ra &operator=(const Ra &); T &operator*() const; Ra &operator++(); Ra operator++(int);
   Ra &operator--(); Ra operator--(int); Ra &operator+=(ttl::ptrdiff_t); Ra &operator-=(ttl::ptrdiff_t); T &operator[](ttl::ptrdiff_t) const;
   friend Ra operator+(const Ra &a, ttl::ptrdiff_t) { return a; } friend Ra operator-(const Ra &a, ttl::ptrdiff_t) { return a; }
   friend ttl::ptrdiff_t operator-(const Ra &, const Ra &) { return 0; } friend Bool operator<(const Ra &, const Ra &) { return Bool(); }
   friend Bool operator==(const Ra &, const Ra &) { return Bool(); } friend Bool operator!=(const Ra &, const Ra &) { return Bool(); } };
''' % "\n".join('#include "ttl/%s.hpp"' % h for h in (
    "algorithm array backward_list fixed_vector forward_list functional lazy_queue list map numeric rbtree set "
    "sorted_vector_map utility vector vector_map").split())


class Ob:
    def __init__(self, key, header, code):
        self.key, self.header, self.code = key, header, code


ALG = """
find(I NE, I NE, v NE)
find(I WE, I WE, v W)
find_if(I N0, I N0, P1 N0)
find_if_not(I N0, I N0, P1 N0)
all_of(I N0, I N0, P1 N0)
any_of(I N0, I N0, P1 N0)
none_of(I N0, I N0, P1 N0)
count(I WE, I WE, v W)
count_if(I N0, I N0, P1 N0)
adjacent_find(F NE, F NE)
adjacent_find(F N0, F N0, P2 N0)
search(F WE, F WE, F W, F W)
search(F N0, F N0, F W, F W, P2 N0 W)
search_n(F WE, F WE, n, v W)
search_n(F N0, F N0, n, v W, P2 N0 W)
equal(I WE, I WE, I W)
equal(I WE, I WE, I W, I W)
equal(I N0, I N0, I W, P2 N0 W)
equal(I N0, I N0, I W, I W, P2 N0 W)
mismatch(I WE, I WE, I W)
mismatch(I WE, I WE, I W, I W)
mismatch(I N0, I N0, I W, P2 N0 W)
mismatch(I N0, I N0, I W, I W, P2 N0 W)
for_each(I N0, I N0, FV N0)
iter_swap(F CA, F CA)
swap_ranges(F CA, F CA, B CA)
fill(F CA, F CA, v CA)
fill_n(O N0, n, v N0)
copy(I N0, I N0, O N0)
copy_if(I N0, I N0, O N0, P1 N0)
copy_n(I N0, n, O N0)
copy_backward(B CA, B CA, B CA)
generate(F CA, F CA, G0 CA)
generate_n(O N0, n, G0 N0)
replace(F CEA, F CEA, v CEA, v CEA)
replace_if(F CA, F CA, P1 CA, v CA)
replace_copy(I NE, I NE, O NE, v NE, v NE)
replace_copy_if(I N0, I N0, O N0, P1 N0, v N0)
remove_copy(I WE, I WE, O WE, v W)
remove_copy_if(I N0, I N0, O N0, P1 N0)
remove(F CEA, F CEA, v CEA)
remove_if(F CA, F CA, P1 CA)
transform(I N0, I N0, O N0, F1 N0)
transform(I N0, I N0, I N0, O N0, F2 N0)
reverse(B CA, B CA)
reverse_copy(B N0, B N0, O N0)
lower_bound(R WL, R WL, v W)
lower_bound(R N0, R N0, v W, P2 N0 W)
upper_bound(R WG, R WG, v W)
upper_bound(R N0, R N0, v W, P2 W N0)
binary_search(R WLG, R WLG, v W)
equal_range(R WLG, R WLG, v W)
binary_search(R NL, R NL, v NL)
binary_search(R N0, R N0, v N0, P2 N0)
equal_range(R NL, R NL, v NL)
equal_range(R N0, R N0, v N0, P2 N0)
is_sorted_until(F NL, F NL)
is_sorted(F NL, F NL)
merge(I NL, I NL, I NL, I NL, O NL)
min(v NL, v NL)
max(v NL, v NL)
min(v N0, v N0, P2 N0)
max(v N0, v N0, P2 N0)
minmax(v NL, v NL)
minmax(v N0, v N0, P2 N0)
min_element(F NL, F NL)
max_element(F NL, F NL)
minmax_element(F NL, F NL)
"""
MORE = """
numeric | iota(F, F, v) of incremented and assigned values | typedef CI<Z> V; ttl::iota(the<Fw<V> >(), the<Fw<V> >(), the<const V>());
numeric | accumulate(I, I, v) of added and assigned values | typedef CP<Z> V; (void)ttl::accumulate(the<In<V> >(), the<In<V> >(), the<const V>());
utility | swap(CA &, CA &) | typedef CA<Z> V; ttl::swap(the<V>(), the<V>());
utility | distance(R, R), advance(R, n) | typedef Ra<N0<Z> > I; (void)ttl::distance(the<I>(), the<I>()); ttl::advance(the<I>(), 3);
utility | pair<C, C>(a, b), copies and make_pair | typedef C<Z> V; typedef CE<Z> W; ttl::pair<V, W> p(the<const V>(), the<const W>()), q(p); (void)ttl::make_pair(the<V>(), the<W>());
utility | pair<CD, CD>() | ttl::pair<CD<Z>, CDA<Z> > p; (void)p;
utility | pair<CA, CA> = pair<CA, CA> | typedef ttl::pair<CA<Z>, CDA<Z> > P; the<P>() = the<const P>();
utility | pair<CE, CEA> == and != | typedef ttl::pair<CE<Z>, CEA<Z> > P; (void)(the<const P>() == the<const P>()); (void)(the<const P>() != the<const P>());
functional | less<NL> | typedef NL<Z> V; (void)ttl::less<V>()(the<const V>(), the<const V>());
functional | equal_to<NE> | typedef NE<Z> V; (void)ttl::equal_to<V>()(the<const V>(), the<const V>());
"""
CAT = {"I": "In", "F": "Fw", "B": "Bi", "R": "Ra", "O": "Out"}


def argument(a):
    w = a.split()
    if w[0] == "n":
        return "the<const int>()"
    if w[0] == "v":
        return "the<const %s<Z> >()" % w[1]
    if w[0] in CAT:
        return "the<%s<%s<Z> > >()" % (CAT[w[0]], w[1])
    return "the<%s<%s> >()" % (w[0], ", ".join(x + "<Z>" for x in w[1:]))


# What the standard asks for where the library needs less (assignment for vector insertion and erasure and for assign): no more is checked.
# container operations: (containers, element archetype, statement); X the container type, c an object, k a constant one, v a value
OPS = """
list forward_list backward_list lazy_queue vector fixed_vector | C | X c; (void)c;
list forward_list backward_list lazy_queue vector fixed_vector | C | X c(k);
list vector fixed_vector forward_list backward_list lazy_queue | C | X c(3, v);
list forward_list backward_list lazy_queue vector fixed_vector | CA | c = k;
list forward_list backward_list lazy_queue vector fixed_vector | C | c.clear();
list vector fixed_vector | C | X c(the<const V *>(), the<const V *>());
list forward_list backward_list | C | X c(the<In<V> >(), the<In<V> >());
list forward_list backward_list | CA | c.assign(3, v);
list forward_list backward_list | CA | c.assign(the<In<V> >(), the<In<V> >());
vector fixed_vector | CA | c.assign(3, v);
vector fixed_vector | CA | c.assign(the<Ra<V> >(), the<Ra<V> >());
list forward_list backward_list lazy_queue | C | c.push_front(v);
list backward_list lazy_queue vector fixed_vector | C | c.push_back(v);
list forward_list backward_list lazy_queue | C | c.pop_front();
list vector fixed_vector | C | c.pop_back();
vector fixed_vector | CA | c.insert(k.begin(), v);
list | C | c.insert(k.begin(), v);
vector fixed_vector | CA | c.insert(k.begin(), 3, v);
list | C | c.insert(k.begin(), 3, v);
list | C | c.insert(k.begin(), the<In<V> >(), the<In<V> >());
vector fixed_vector | CA | c.insert(k.begin(), the<Ra<V> >(), the<Ra<V> >());
vector fixed_vector | CA | c.resize(3, v);
vector fixed_vector | CDA | c.resize(3);
vector fixed_vector | CD | X c(3);
list | C | c.resize(3, v);
list | CD | c.resize(3);
vector | C | c.reserve(3);
vector | C | c.swap(c);
fixed_vector | CA | c.swap(c);
vector fixed_vector | CA | c.erase(k.begin());
list | C | c.erase(k.begin());
vector fixed_vector | CA | c.erase(k.begin(), k.end());
list | C | c.erase(k.begin(), k.end());
forward_list backward_list lazy_queue | C | c.insert_after(k.before_begin(), v);
forward_list backward_list lazy_queue | C | c.insert_after(k.before_begin(), 3, v);
forward_list backward_list lazy_queue | C | c.insert_after(k.before_begin(), the<In<V> >(), the<In<V> >());
forward_list backward_list lazy_queue | C | c.erase_after(k.before_begin());
forward_list backward_list lazy_queue | C | c.erase_after(k.before_begin(), k.end());
list forward_list backward_list lazy_queue | C | c.swap(c);
list forward_list backward_list | C | c.reverse();
list | C | c.splice(k.begin(), c);
list | C | c.splice(k.begin(), c, k.begin());
list | C | c.splice(k.begin(), c, k.begin(), k.end());
forward_list | C | c.splice_after(k.before_begin(), c);
forward_list | C | c.splice_after(k.before_begin(), c, k.begin());
forward_list | C | c.splice_after(k.before_begin(), c, k.begin(), k.end());
list | CE | c.remove(v);
list | C | c.remove_if(the<P1<V> >());
list | CE | c.unique();
list | C | c.unique(the<P2<V> >());
list | CL | c.merge(c);
list | C | c.merge(c, the<P2<V> >());
list forward_list backward_list vector fixed_vector array | CE | (void)(k == k); (void)(k != k);
list vector fixed_vector array | C | (void)c.size(); (void)k.empty(); (void)c.front(); (void)k.back(); (void)*c.begin(); (void)*k.begin();
forward_list backward_list lazy_queue | C | (void)k.empty(); (void)c.front(); (void)k.front(); (void)*c.begin(); (void)*k.begin();
list forward_list backward_list lazy_queue | C | for (typename X::iterator i = c.begin(); i != c.end(); ++i) (void)*i;
vector fixed_vector array | C | (void)c[0]; (void)k[0]; (void)c.at(0); (void)k.at(0); (void)c.data();
array | CA | c.fill(v);
array | CA | c.swap(c);
lazy_queue | C | c.roll_head(); c.cleanup();
list forward_list backward_list lazy_queue | CN | X c(k); c.push_front(v); c = k; c.pop_front(); c.clear();
vector fixed_vector | CN | X c(k); X d(3); X e(3, v); c.push_back(v); c.insert(k.begin(), v); c.insert(k.begin(), 3, v); c = k; c.pop_back(); c.clear(); c.erase(k.begin()); c.resize(7);
vector | CN | c.reserve(9);
lazy_queue vector fixed_vector backward_list list | CN | c.push_back(v);
"""
# maps: K key archetype, V mapped archetype
MAPS = """
map sorted_vector_map | CEL | C | X c; (void)c;
map sorted_vector_map | CEL | C | X c(k);
map | CEL | C | X c(the<In<typename X::value_type> >(), the<In<typename X::value_type> >());
map | CEL | C | c = k;
map | CEL | C | c.insert(the<In<typename X::value_type> >(), the<In<typename X::value_type> >());
map sorted_vector_map | CEL | C | c.insert(the<const typename X::value_type>());
map sorted_vector_map | CEL | C | c.clear();
map sorted_vector_map | CEL | C | (void)c.find(key); (void)k.find(key); (void)k.count(key);
map sorted_vector_map | CEL | C | (void)c.lower_bound(key); (void)k.lower_bound(key); (void)c.upper_bound(key); (void)k.upper_bound(key);
map sorted_vector_map | CEL | C | (void)c.equal_range(key); (void)k.equal_range(key);
map sorted_vector_map | CEL | C | (void)c.at(key); (void)k.at(key);
map | CEL | CD | (void)c[key];
sorted_vector_map | CEL | CD | (void)c[key];
map | CEL | C | (void)c.erase(key);
map | CEL | CE | (void)(k == k); (void)(k != k);
map sorted_vector_map | CEL | C | for (typename X::iterator i = c.begin(); i != c.end(); ++i) (void)i->second;
map sorted_vector_map | CEL | C | for (typename X::const_iterator i = k.begin(); i != k.end(); i++) (void)(*i).first;
vector_map | CEA | CA | X c; (void)c;
vector_map | CEA | CA | X c(k);
vector_map | CEA | CA | c.insert(the<const typename X::value_type>());
vector_map | CEA | CA | (void)c.find(key); (void)k.find(key); (void)k.count(key); (void)c.at(key); (void)k.at(key);
vector_map | CEA | CDA | (void)c[key];
vector_map | CEA | CA | for (typename X::iterator i = c.begin(); i != c.end(); ++i) (void)i->second;
"""
SETS = """
X c; (void)c;
X c(k);
c = k;
X c(the<In<K> >(), the<In<K> >());
c.insert(the<In<K> >(), the<In<K> >());
c.insert(key);
c.erase(key);
c.clear();
(void)c.find(key); (void)k.find(key); (void)k.count(key);
(void)c.lower_bound(key); (void)k.lower_bound(key); (void)c.upper_bound(key); (void)k.upper_bound(key);
(void)c.equal_range(key); (void)k.equal_range(key);
(void)(k == k); (void)(k != k);
for (typename X::iterator i = c.begin(); i != c.end(); ++i) (void)*i;
"""


def body(code):
    """declare c where the statement does not declare it"""
    return code if re.search(r"\bX c\b", code) else "X &c = the<X>(); (void)c; " + code


def obligations():
    out = []
    for l in ALG.strip().split("\n"):
        f, args = l.rstrip(")").split("(", 1)
        call = "%s(%s)" % (f, ", ".join(argument(a.strip()) for a in args.split(",")))
        out.append(Ob(l, "algorithm", "(void)ttl::%s;" % call))
    for l in MORE.strip().split("\n"):
        h, what, code = [x.strip() for x in l.split("|", 2)]
        out.append(Ob(what, h, code))
    for l in OPS.strip().split("\n"):
        cs, e, code = [x.strip() for x in l.split("|", 2)]
        for c in cs.split():
            x = {"fixed_vector": "ttl::fixed_vector<V, 5>", "array": "ttl::array<V, 5>"}.get(c, "ttl::%s<V>" % c)
            out.append(Ob("%s<%s>: %s" % (c, e, code), c, "typedef %s<Z> V; typedef %s X; const X &k = the<X>(); const V &v = the<V>(); (void)k; (void)v; %s" % (e, x, body(code))))
    for l in MAPS.strip().split("\n"):
        cs, e, e2, code = [x.strip() for x in l.split("|", 3)]
        for c in cs.split():
            cmps = ["", ", Less<K>"] if c != "vector_map" and e == "CEL" else [""]
            for cmp in cmps:
                ke = "CE" if cmp else e
                if "k == k" in code and cmp:
                    continue
                out.append(Ob("%s<%s, %s%s>: %s" % (c, ke, e2, cmp, code), c, "typedef %s<Z> K; typedef %s<Z> V; typedef ttl::%s<K, V%s> X; const X &k = the<X>(); const K &key = the<K>(); (void)k; (void)key; %s"
                              % (ke, e2, c, cmp, body(code))))
    for code in SETS.strip().split("\n"):
        for ke, cmp in (("CEL", ""), ("CE", ", Less<K>")):
            if "k == k" in code and cmp:
                continue
            out.append(Ob("set<%s%s>: %s" % (ke, cmp, code), "set", "typedef %s<Z> K; typedef ttl::set<K%s> X; const X &k = the<X>(); const K &key = the<K>(); (void)k; (void)key; %s" % (ke, cmp, body(code))))
    return out


def decide(obls, flags):
    d = tempfile.mkdtemp(prefix="ttlv.")
    src = os.path.join(d, "w.cpp")
    try:
        lines = PRE.split("\n")
        base = len(lines)
        for i, o in enumerate(obls):
            lines.append("template<int Z> void f%d() { %s } template void f%d<%d>();" % (i, o.code, i, i))
        with open(src, "w") as f:
            f.write("\n".join(lines) + "\n")
        r = subprocess.run([CLANG, "-fsyntax-only", "-w", "-ferror-limit=0", "-fno-caret-diagnostics", "-ftemplate-backtrace-limit=0",
                            "-I" + build.REPO] + flags + [src], capture_output=True, text=True)
        bad, other, blocks = {}, [], []
        for l in r.stderr.split("\n"):
            if re.search(r":\d+:\d+: (fatal )?error: ", l):
                blocks.append([l])
            elif blocks:
                blocks[-1].append(l)
        for b in blocks:
            hit = None
            for l in b:
                m = re.match(re.escape(src) + r":(\d+):", l)
                if m and int(m.group(1)) > base:
                    hit = int(m.group(1)) - base - 1
                    break
            if hit is None or "fatal error" in b[0]:
                other.append(b[0].replace(build.REPO + "/", ""))
            else:
                loc = next((re.search(r"ttl/\w+\.hpp:\d+", l).group(0) for l in b if re.search(r"ttl/\w+\.hpp:\d+", l)), None)
                bad.setdefault(hit, (re.sub(r".*error: ", "", b[0]), loc))
        return bad, other
    finally:
        subprocess.run(["rm", "-rf", d])


CONFIGS = [("c++11", ["-std=c++11"]), ("gnu++17", ["-std=gnu++17"]), ("c++20", ["-std=c++20"])]


def _cfg(c):
    obls = obligations()
    bad, other = decide(obls, c[1])
    return c[0], [(o.key, o.header) for o in obls], bad, other


def requirements(pid):
    res = result()
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
        rs = pool.map(_cfg, CONFIGS, chunksize=1)
    seen = set()
    for name, obls, bad, other in rs:
        res["obligations"] += len(obls)
        res["discharged"] += len(obls) - len(bad)
        for i, (msg, loc) in sorted(bad.items()):
            key, header = obls[i]
            if key not in seen:
                seen.add(key)
                res["violations"].append(dict(op=header, label=name, rule="requires-more", msg="%s: %s" % (key, msg), where=loc or "ttl/%s.hpp" % header))
        for o in other:
            (res["errors"] if name == "gnu++17" else res["undecided"]).append(
                "%s: %s" % (name, o) if name == "gnu++17" else {"op": "headers", "case": name, "why": [o]})
        res["samples"].append({"configuration": name, "instantiations": len(obls), "first": obls[0][0], "last": obls[-1][0]})
    res["stats"]["configurations"] = [c[0] for c in CONFIGS]
    return res


if __name__ == "__main__":
    obls = obligations()
    bad, other = decide(obls, ["-std=gnu++17"])
    for i, (m, l) in sorted(bad.items()):
        print("%-90s %s %s" % (obls[i].key, l, m[:160]))
    print(len(obls), len(bad), other[:5])
