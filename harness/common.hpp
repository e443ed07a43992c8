// Opaque element type and predicates: every special member and comparison is an undefined external, so the
// analysed IR contains exactly the operations ttl performs on elements.
#include <new>
#include "ttl/ttl.hpp"
#include "ttl/forward_list.hpp"
#include "ttl/backward_list.hpp"
#include "ttl/lazy_queue.hpp"
#include "ttl/vector_map.hpp"
#include "ttl/sorted_vector_map.hpp"
#include "ttl/numeric.hpp"
struct E
{
   void *opaque[2];
   E();
   E(const E &);
   E &operator=(const E &);
   ~E();
};
bool operator==(const E &, const E &);
bool operator<(const E &, const E &);
// the derived comparisons mean what they usually mean
inline bool operator!=(const E &a, const E &b) { return !(a == b); }
inline bool operator>(const E &a, const E &b) { return b < a; }
inline bool operator<=(const E &a, const E &b) { return !(b < a); }
inline bool operator>=(const E &a, const E &b) { return !(a < b); }
struct P1 { bool operator()(const E &) const; };
struct P2 { bool operator()(const E &, const E &) const; };
struct F1 { void operator()(E &) const; };
typedef ttl::size_t sz;
