"""Which analysed cases and which rules decide each property."""
from cases import RULES_MEM, RULES_VAL

ALL = RULES_MEM | RULES_VAL | {"identity", "effect", "known", "pool", "alloc", "block", "capacity", "links",
                               "balance"}


def ops(prefix=(), only=(), exclude=()):
    def f(op):
        if only and op in only:
            return True
        if exclude and op in exclude:
            return False
        return any(op.startswith(p) for p in prefix)
    return f


LIST_SPLICE = ("list_splice", "list_splice_one", "list_splice_range", "list_merge", "list_merge_c", "list_reverse", "list_swap")

SM_READ = ("si_", "sc_", "sm_find", "sm_cfind", "sm_count", "sm_equal", "sm_cequal", "sm_lower", "sm_clower", "sm_upper", "sm_cupper",
           "sm_at", "sm_cat", "sm_begin", "sm_cbegin", "sm_end", "sm_cend", "sm_size", "sm_empty", "sm_key", "sm_value")
AL_READ = tuple("al_" + x for x in (
    "find find_if find_if_not all_of any_of none_of adjacent_find adjacent_find_p is_sorted is_sorted_until equal3 equal4 equal3_p "
    "equal4_p mismatch3 mismatch4 mismatch3_p mismatch4_p for_each accumulate search search_p search_n search_n_p count "
    "count_if").split())
AL_ORDER = tuple("al_" + x + y for x in (
    "lower_bound upper_bound binary_search equal_range min max minmax").split() for y in ("", "_c")) + (
    "al_min_element", "al_max_element", "al_minmax_element")
AL_WRITE = tuple("al_" + x for x in (
    "iter_swap swap_ranges fill fill_n copy copy_n copy_backward copy_if transform transform2 reverse reverse_copy generate "
    "generate_n iota remove remove_if remove_copy remove_copy_if replace replace_if replace_copy replace_copy_if merge").split())

TREE_MUT = ("rb_insert_unique", "rb_insert_equal", "rb_remove")
TREE_LOOK = tuple("%s_%s" % (p, x) for p in ("rb", "st", "mp") for x in (
    "find", "cfind", "lower", "clower", "upper", "cupper", "equal", "cequal", "count")) + ("mp_at", "mp_cat")
TREE_ITER = tuple("%s_%s" % (p, x) for p in ("st", "mp") for x in ("begin", "cbegin", "ccbegin", "end", "cend", "ccend")) + (
    "rb_next", "rb_prev", "rb_min", "rb_max", "rb_end", "rb_root")
TREE_OWN = tuple("%s_%s" % (p, x) for p in ("st", "mp") for x in (
    "insert", "insert_range", "range", "erase", "ctor", "dtor", "copy", "asg", "clear", "empty")) + (
    "mp_idx", "mp_at", "mp_cat", "mp_vcomp", "rb_assign", "rb_clear", "rb_dtor", "rb_ctor")
TREE_NOTE = ("Decided for every left-leaning red-black tree of black height up to 3 (rbtree) or 2 (set, map: the same rbtree code), that "
             "is up to 26 (8) elements, subtrees unfolded only where the operation looks; the words below and above the key are "
             "symbolic. Thorough: one level more. Trusts clang 18's front end and inliner and the interpreter in engine/.")
TREE_BOUND = ["trees of black height at most 3 (rbtree), 2 (set, map), before the operation",
              "Compare is a strict weak order and operator== of keys agrees with it"]


def aliased(label):
    return any(x in label for x in ("self", "own element", "value is an element"))


PROPS = {
    "C13": dict(units=[("trees", ops(only=TREE_MUT), ALL - {"balance"})], technique="abstract interpretation of the compiled IR over "
                "lazily unfolded red-black tree shapes with symbolic in-order words", note=TREE_NOTE, assumptions=TREE_BOUND,
                rule="every exit of insert_unique, insert_equal and remove, from every tree and every position of the key (absent, present, "
                     "repeated): parent links consistent, no node shared, lost or freed, in-order word = the old one plus or minus exactly "
                     "the specified element, returned node as specified, no element copied but the new one"),
    "C14": dict(units=[("trees", ops(only=TREE_MUT), {"balance", "null-deref", "wild-access", "no-progress", "uninitialised"}),
                       ("trees", ops(only=("st_copy", "st_asg", "mp_copy", "mp_asg", "rb_assign")), {"balance"})],
                technique="abstract interpretation of the compiled IR over lazily unfolded red-black tree shapes",
                note=TREE_NOTE, assumptions=TREE_BOUND,
                rule="every exit of every insertion and removal, from every balanced tree and position: no right-leaning and no doubled red "
                     "link, black root, equal black height of all paths; copies have the shape and colours of their source"),
    "C15": dict(units=[("trees", ops(only=TREE_LOOK), ALL)], technique="abstract interpretation of the compiled IR over lazily unfolded "
                "red-black tree shapes with symbolic in-order words", note=TREE_NOTE, assumptions=TREE_BOUND,
                rule="every exit of find, count, lower_bound, upper_bound, equal_range and at, const and not, from every tree, the key absent, "
                     "present or repeated at every position: the specified node, end or count; no write, no allocation, no element operation "
                     "but comparison"),
    "C16": dict(units=[("trees", ops(only=TREE_OWN), ALL - {"balance"})], technique="abstract interpretation of the compiled IR over lazily "
                "unfolded red-black tree shapes with symbolic in-order words", note=TREE_NOTE, assumptions=TREE_BOUND + [
                    "copy, clear and destruction: trees of black height up to 2; inserted ranges of up to 2 elements"],
                rule="every exit of every set and map operation: the specified elements, mapped values and result; a node allocated exactly for "
                     "each new element, every removed node destroyed and released exactly once, copies share nothing with their source"),
    "C32": dict(units=[("trees", ops(prefix=("sti_", "stc_", "mpi_", "mpc_"), only=TREE_ITER), ALL)],
                technique="abstract interpretation of the compiled IR over lazily unfolded red-black tree shapes with symbolic in-order words",
                note=TREE_NOTE, assumptions=TREE_BOUND,
                rule="begin is the first element (end() when empty); from every position of every tree ++ yields the in-order successor or end() "
                     "and -- the predecessor, from end() the last element; nothing outside the tree's nodes is read, nothing written"),
    "C29": dict(units=[("lists", ops(only=("list_eq", "list_ne")), ALL), ("slists", ops(only=("fl_eq", "fl_ne", "bl_eq", "bl_ne")), ALL),
                       ("vectors", ops(only=tuple(a + b for a in ("ve", "f1", "fn", "fb") for b in ("_eq", "_ne"))), ALL),
                       ("trees", ops(only=("st_eq", "st_ne", "mp_eq", "mp_ne")), ALL),
                       ("arrays", ops(only=("a0_eq", "a0_ne", "a1_eq", "a1_ne", "a5_eq", "a5_ne", "pr_eq", "pr_ne")), ALL)],
                rule="operator== and != of list, forward_list, backward_list, vector, fixed_vector (two of any sizes), set, map (two trees of "
                     "black height up to 2), array (N = 0, 1, 5) and pair: true exactly when the sizes agree and every pair of corresponding "
                     "elements was asked and compared equal, false only after a difference; nothing past an end is read",
                assumptions=["set, map: black height up to 2; array: N in 0, 1, 5; fixed_vector: N in 1, 4"]),
    "C30": dict(units=[("lists", ops(("list_",)), ALL, aliased), ("slists", ops(("fl_", "bl_", "lq_")), ALL, aliased),
                       ("vectors", ops(("ve_", "f1_", "fn_", "fb_")), ALL, aliased), ("trees", ops(("rb_", "st_", "mp_")), ALL, aliased),
                       ("arrays", ops(("a", "pr_")), ALL, lambda l: "self" in l or "own" in l)],
                rule="self-assignment of every container leaves its word unchanged; insert, push, resize, remove, erase and lookups with an "
                     "argument that is an element of the same container act on that element's value; nothing dead or released is read",
                assumptions=["set, map, rbtree: black height up to 2; counted insertion of an own element: two copies"]),
    "C35": dict(units=[("scalars", ops(("vi_",)), RULES_MEM | {"not-initialised"})],
                rule="in every listed instance with plain int elements the element read after the creating operation is the constant 0, "
                     "not uninitialised or left-over memory",
                note="Abstract interpretation of the compiled operation and the read that follows it, with allocated memory undefined "
                     "until written; the instances are closed programs with fixed sizes, each new element kind once fresh, once in reused storage.",
                assumptions=["int stands for every type without initialisation of its own; sizes 1 to 4"]),
    "C36": dict(static=["headers:combine"], technique="compile-time witnesses and linkage queries over the compiler's intermediate representation",
                rule="in C++98, 11, 17 and 20: a program of one header, of one header twice, of one header and an explicit instantiation of its "
                     "class templates, and of all headers with any of them first or last and every class template instantiated compiles; no "
                     "header emits a strong symbol; all headers together leave nothing of ttl undefined; the out-of-line rbtree mode defines "
                     "exactly what the declaring mode needs",
                note="Decided by the type checker for every header and standard, and from the linkage of every symbol of the emitted modules. "
                     "Trusts clang. bitset.hpp is exempt in C++98 (clang rejects sizeof of a member in a static function there).",
                assumptions=["int elements stand for every element type; every header first and last stand for every order"]),
    "C37": dict(static=["members:members"], technique="compile-time witnesses",
                rule="in C++11, 17 and 20, for every container, iterator, pair, bitset, function object and algorithm listed: the named "
                     "member type or the type of the expression is exactly the specified one (decided by the type checker; an "
                     "ill-formed expression is an alarm)",
                note="Each obligation is one static assertion over decltype of an expression against /repo's headers. Trusts clang's type checker.",
                assumptions=["one element type, one key type and one capacity stand for all: the declarations do not depend on them"]),
    "C33": dict(static=["cost:costs"], technique="abstract interpretation of the compiled IR with counters for loop iterations and comparisons",
                rule="constant: no feasible path of a constant-time operation runs a loop more than 9 times while others leave it after three "
                     "or more different numbers of iterations; descent: every exit of a tree lookup or insertion has compared the key with "
                     "at most 2h distinct nodes (h the black height; twice that for equal_range); bisection: every exit of a search of 64 "
                     "ordered elements, for every partition point, has compared the key with at most 18 of them (36 for equal_range)",
                note="Sizes are symbolic for the constant-time rule; trees of every shape up to black height 3 (set, map: 2); one length, "
                     "64, stands for all in the bisection rule. Trusts clang 18's front end and inliner and the interpreter in engine/.",
                assumptions=["growth that shows only beyond 9 iterations of a loop is not looked for in the constant-time rule",
                             "logarithmic growth is decided at one length (64), trees at black heights up to 3"]),
    "C38": dict(static=["require:requirements"], technique="compile-time witnesses: instantiation with archetypes",
                rule="in C++11, 17 and 20: every container operation, algorithm, pair, utility and function object listed, instantiated with "
                     "element, iterator and function object types that have exactly the required operations, is well-formed",
                note="One explicit instantiation per operation and archetype, decided by clang's type checker; the archetypes' functions are "
                     "only declared. Trusts clang.",
                assumptions=["the requirements are those of the standard's container of the same name, where ttl's operation is the same"]),
    "C31": dict(units=[("arrays", ops(("a0_", "a1_", "a5_", "pr_", "ut_", "fo_")), ALL)],
                rule="every exit of every array (N = 0, 1, 5), pair and utility operation: every element of every object involved is the "
                     "specified one, nothing else is touched, result as specified",
                assumptions=["array lengths 0, 1 and 5; distance/advance within 5 elements"]),
    "C01": dict(units=[("vectors", ops(("ve_",)), RULES_MEM)],
                rule="every exit of every vector operation, from vectors of every size and spare capacity (and without storage): "
                     "elements read/destroyed only while alive, constructed only in raw slots of the block, exactly the slots below "
                     "size() alive afterwards, replaced blocks empty and freed once, nothing leaked"),
    "C02": dict(units=[("vectors", ops(("ve_",)), RULES_VAL | {"effect", "header"})],
                rule="every exit of every vector operation: the block holds the specified word; returned iterator / value as "
                     "specified; the source of a copy unchanged"),
    "C03": dict(units=[("vectors", ops(("ve_",)), {"alloc", "block", "capacity", "header"})],
                rule="operations that fit into the capacity neither allocate nor release and leave the same block; "
                     "capacity() >= n after reserve(n)"),
    "C04": dict(units=[("vectors", ops(("f1_", "fn_", "fb_")), RULES_MEM | {"alloc"}), ("scalars", ops(("al",)), {"misaligned"})],
                static=["witness:alignment"],
                rule="the storage is aligned for element types of every alignment (type-level witnesses under five standards, offset of the "
                     "first element); every exit of every fixed_vector operation (N=1, 4 and 300, every size): accesses stay inside the N slots, "
                     "elements read/destroyed only while alive, constructed only in raw slots, exactly the slots below size() "
                     "alive afterwards, no allocation",
                assumptions=["the template parameter N is instantiated with 1, 4 and 300"]),
    "C05": dict(units=[("vectors", ops(("f1_", "fn_", "fb_")), RULES_VAL | {"effect", "header"})],
                rule="every exit of every fixed_vector operation (N=1, 4 and 300, every size): the slots hold the specified word "
                     "cut to N elements; returned iterator / value as specified",
                assumptions=["the template parameter N is instantiated with 1, 4 and 300"]),
    "C06": dict(units=[("lists", ops(("list_",)), RULES_MEM | {"identity", "known"})],
                rule="every exit of every list operation, from lists of every length: ring closed and back links consistent, "
                     "no access to a released node, every node owned by exactly one list or released exactly once"),
    "C07": dict(units=[("lists", ops(("list_",)), ALL)],
                rule="every exit of every list operation: element word equals the operation's specification; returned "
                     "iterator / value as specified"),
    "C08": dict(units=[("lists", ops(only=LIST_SPLICE), ALL)],
                rule="splice/merge/reverse/swap: same node identities in the specified order, no element operation, no allocation"),
    "C09": dict(units=[("slists", ops(("fl_",)), ALL)],
                rule="every exit of every forward_list operation, from chains of every length: null-terminated chain, node "
                     "ownership, element word, node identities, returned iterators"),
    "C10": dict(units=[("slists", ops(("bl_",)), ALL)],
                rule="every exit of every backward_list operation: as forward_list, and the tail pointer designates the last "
                     "node (the header when empty)"),
    "C11": dict(units=[("slists", ops(("lq_",)), RULES_VAL | {"ring", "tail", "identity", "wild-access", "null-deref",
                                                              "uninitialised", "no-progress", "known"})],
                rule="every exit of every lazy_queue operation: queue word equals the specification, tail designates the last "
                     "node (the header when empty), chain null-terminated"),
    "C12": dict(units=[("slists", ops(("lq_",)), RULES_MEM | {"pool", "effect", "alloc", "identity", "known"})],
                rule="every exit of every lazy_queue operation: pooled nodes hold no live element, their number is the "
                     "specified one, nodes are allocated only when the pool is empty and released only by cleanup and the "
                     "destructor"),
    "C22": dict(units=[("algos", ops(("al_",)), RULES_MEM | {"advance"})],
                rule="every algorithm on ranges of every length (and the second range / destination no longer than specified): no "
                     "iterator dereferenced or moved outside its range, no element read or written outside it; memory rules are "
                     "decided for every length and every predicate outcome"),
    "C23": dict(units=[("algos", ops(only=AL_READ), RULES_VAL | {"effect", "predicate-calls"})],
                rule="result of every non-modifying algorithm against its definition over the opaque predicate (find*, all/any/none_of, "
                     "equal, mismatch, adjacent_find, is_sorted*, accumulate: every length; search*, count*: all outcomes up to 5 "
                     "elements), nothing modified; no unary predicate is asked twice about an element",
                assumptions=["range lengths fit int"]),
    "C24": dict(units=[("algos", ops(only=AL_WRITE), RULES_VAL | {"effect", "predicate-calls"})],
                rule="word of every range and returned iterator of every modifying algorithm (element-wise ones: every length; "
                     "filtering ones and merge: all outcomes up to 5 (3+3) elements); no unary predicate is asked twice about an element",
                assumptions=["range lengths fit int"]),
    "C25": dict(units=[("algos", ops(only=AL_ORDER), RULES_VAL | {"effect"})],
                rule="lower_bound, upper_bound, equal_range, binary_search return the partition point for every length and every pair of "
                     "partition points; extrema for all orderings of up to 5 elements",
                assumptions=["range lengths fit int"]),
    "C17": dict(units=[("svm", ops(("sm_", "si_", "sc_")), ALL | {"advance"})],
                rule="every exit of every sorted_vector_map operation, from maps of every size and capacity (also without storage), the "
                     "key absent or present at every position: pairs in key order, each new pair at its ordered position and only for "
                     "an absent key, every slot below size() designates another live pair, nothing written outside the slots, nothing "
                     "leaked or released twice"),
    "C18": dict(units=[("svm", ops(SM_READ), ALL | {"advance"}), ("vmap", ops(("vm_",)), ALL)],
                rule="every lookup and iterator operation of sorted_vector_map (every size, key absent or present at every position) and "
                     "every operation of vector_map: the specified position, value or count, no change of the container, termination",
                assumptions=["vector_map::count: all outcomes up to 5 pairs; memory rules for every size"]),
    "C19": dict(static=["bitset:run"], technique="bit-provenance dataflow over the compiled IR of every instantiated operation",
                rule="every single-bit operation at every listed position (slot boundaries, past the size, past 2^32): the truth table of "
                     "every bit below N equals the specified one, the result is exactly that bit",
                assumptions=["N in 0,1,7,31..33,63..65,100,127..129,200,300; positions around slot boundaries (thorough: every position)"]),
    "C20": dict(static=["bitset:run"], technique="bit-provenance dataflow over the compiled IR of every instantiated operation",
                rule="every whole-set operation: the truth table of every bit below N, the result of all/any/none/==/count and the integer "
                     "conversions as functions of exactly the bits below N, with the bits past the size unconstrained",
                assumptions=["N in 0,1,7,31..33,63..65,100,127..129,200,300; 27 pairs of sizes; shift amounts around slot boundaries"]),
    "C21": dict(static=["bitset:run"], technique="bit-provenance dataflow over the compiled IR of every instantiated operation",
                rule="every load and store of every bitset operation lies inside the object it addresses (bitsets of exactly their size, "
                     "strings of exactly n characters)",
                assumptions=["N in 0,1,7,31..33,63..65,100,127..129,200,300; string lengths around N and the slot size"]),
    "C26": dict(static=["freestand:freestanding"],
                technique="call-graph and symbol analysis of the compiled IR of every public operation, scan of the type-checked syntax tree "
                          "of every header under four standards, include analysis; candidate allocations confirmed by abstract interpretation",
                note="Decides every operation instantiated by harness/*.cpp (all public operations of every header) and, for the syntax "
                     "rules, every function of every header, instantiated or not. Reachability over-approximates; a reachable allocation in "
                     "an operation that may not allocate is reported only if the abstract interpreter executes it.",
                rule="direct includes are freestanding headers; no throw, try, typeid, dynamic_cast or thread-local, no call of a function "
                     "that the library does not define; external symbols are only element operations, operator new and delete; no guarded "
                     "or dynamic static initialisation, no write to a hidden static; operator new is reachable only from growing operations; "
                     "call cycles only from whole-tree copy and destruction"),
    "C27": dict(static=["witness:constness", "constops:writes"],
                technique="compile-fail witnesses decided by the type checker; points-to analysis of the compiled const operations",
                rule="every listed write through a const container or const_iterator is ill-formed (and well-formed through the mutable "
                     "one); every store, element construction, assignment, destruction and release in each of the const operations has a "
                     "target other than the container's memory",
                note="Type witnesses are decided exactly by clang's type checker; the points-to half is flow-insensitive, alarms only "
                     "where every possible target is container memory, and leaves the tree and map copies undecided (their source is "
                     "checked by C16-C18).",
                assumptions=["set::iterator and the mutable map iterators give a mutable key: not part of the const interface"]),
    "C28": dict(static=["witness:traits"], technique="compile-time witnesses: static assertions over the headers, decided by the type checker",
                rule="for every trait and every type of the table (fundamental, class, union, enumeration, function, pointer, reference, array, "
                     "member pointer, with every cv-qualification): the trait's value or type equals the compiler's own classification, in ten "
                     "language/target configurations",
                note="Decided by the compiler for every listed type and configuration. Documented deviations of the header are the oracle: "
                     "is_signed/is_unsigned follow their listed types (no floating point, no bool), is_scalar knows no enumerations, member "
                     "pointers or nullptr_t, is_integral no char16_t/char32_t. Trusts clang's type checker.",
                assumptions=["the type table stands for all types of each kind"]),
}
