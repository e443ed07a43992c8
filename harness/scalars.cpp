// instances with plain types: elements created without a given value, and the alignment of the storage
#include <new>
#include "ttl/ttl.hpp"
#include "ttl/vector_map.hpp"
#include "ttl/sorted_vector_map.hpp"
typedef int I;
extern "C" {
int vi_vector_n1() { ttl::vector<I> v(1); return v[0]; }
int vi_vector_n3() { ttl::vector<I> v(3); return v[2]; }
int vi_vector_resize() { ttl::vector<I> v; v.resize(2); return v[1]; }
int vi_vector_resize_more() { ttl::vector<I> v; v.push_back(7); v.resize(3); return v[2]; }
int vi_vector_resize_again() { ttl::vector<I> v((ttl::size_t)3, 7); v.clear(); v.resize(2); return v[1]; }
int vi_vector_resize_back() { ttl::vector<I> v((ttl::size_t)3, 7); v.resize(1); v.resize(3); return v[2]; }
int vi_fixed_n1() { ttl::fixed_vector<I, 4> v(1); return v[0]; }
int vi_fixed_n4() { ttl::fixed_vector<I, 4> v(4); return v[3]; }
int vi_fixed_resize() { ttl::fixed_vector<I, 4> v; v.resize(2); return v[1]; }
int vi_fixed_resize_again() { ttl::fixed_vector<I, 4> v((ttl::size_t)4, 7); v.clear(); v.resize(2); return v[1]; }
int vi_fixed_resize_back() { ttl::fixed_vector<I, 4> v((ttl::size_t)4, 7); v.resize(1); v.resize(4); return v[3]; }
int vi_list_resize() { ttl::list<I> v; v.resize(1); return v.back(); }
int vi_list_resize_more() { ttl::list<I> v; v.push_back(7); v.resize(2); return v.back(); }
int vi_map_index() { ttl::map<I, I> m; return m[3]; }
int vi_map_index_more() { ttl::map<I, I> m; m[1] = 7; return m[0]; }
int vi_vm_index() { ttl::vector_map<I, I> m; return m[3]; }
int vi_vm_index_more() { ttl::vector_map<I, I> m; m[1] = 7; return m[0]; }
int vi_svm_index() { ttl::sorted_vector_map<I, I> m; return m[3]; }
int vi_svm_index_more() { ttl::sorted_vector_map<I, I> m; m[1] = 7; return m[0]; }
int vi_pair_first() { ttl::pair<I, I> p; return p.first; }
int vi_pair_second() { ttl::pair<I, I> p; return p.second; }
}

// where a fixed_vector puts its elements, for element types of every alignment
struct alignas(32) A32 { char c[32]; };
template<class T> const void *first(const ttl::fixed_vector<T, 3> &v) { return v.cbegin(); }
extern "C" {
const void *al1_char(const ttl::fixed_vector<char, 3> *v) { return first(*v); }
const void *al2_short(const ttl::fixed_vector<short, 3> *v) { return first(*v); }
const void *al4_int(const ttl::fixed_vector<int, 3> *v) { return first(*v); }
const void *al8_double(const ttl::fixed_vector<double, 3> *v) { return first(*v); }
const void *al8_pointer(const ttl::fixed_vector<void *, 3> *v) { return first(*v); }
const void *al16_longdouble(const ttl::fixed_vector<long double, 3> *v) { return first(*v); }
const void *al32_aligned(const ttl::fixed_vector<A32, 3> *v) { return first(*v); }
}
