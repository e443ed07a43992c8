// Opaque keys, values and key-value pairs: ttl::pair<K, M> is specialised so that a pair is one opaque element
// (pair itself is decided by C31); its key is at offset 0, its value at offset 16.
#include <new>
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
struct K { void *opaque[2]; K(); K(const K &); K &operator=(const K &); ~K(); };
struct M { void *opaque[2]; M(); M(const M &); M &operator=(const M &); ~M(); };
bool operator==(const K &, const K &);
inline bool operator!=(const K &a, const K &b) { return !(a == b); }
struct CK { bool operator()(const K &, const K &) const; };
namespace ttl {
template<> struct pair<K, M>
{
   typedef K first_type;
   typedef M second_type;
   K first;
   M second;
   pair();
   pair(const K &, const M &);
   pair(const pair &);
   pair &operator=(const pair &);
   ~pair();
};
}
typedef ttl::pair<K, M> P;
