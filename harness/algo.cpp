#include "common.hpp"
// opaque operations that return elements
E operator+(const E &, const E &);
E &operator++(E &);
E operator-(const E &, const E &);
E &operator--(E &);
inline E operator++(E &a, int) { E t(a); ++a; return t; }
inline E operator--(E &a, int) { E t(a); --a; return t; }
inline E &operator+=(E &a, const E &b) { a = a + b; return a; }
inline E &operator-=(E &a, const E &b) { a = a - b; return a; }
struct G0 { E operator()() const; };
struct U1 { E operator()(const E &) const; };
struct U2 { E operator()(const E &, const E &) const; };
typedef const E *CE;
typedef ttl::pair<CE, CE> PP;
typedef ttl::pair<const E &, const E &> RR;
extern "C" {
// non-modifying
CE al_find(CE f, CE l, CE x) { return ttl::find(f, l, *x); }
CE al_find_if(CE f, CE l) { return ttl::find_if(f, l, P1()); }
CE al_find_if_not(CE f, CE l) { return ttl::find_if_not(f, l, P1()); }
CE al_search(CE f, CE l, CE s, CE e) { return ttl::search(f, l, s, e); }
CE al_search_p(CE f, CE l, CE s, CE e) { return ttl::search(f, l, s, e, P2()); }
CE al_search_n(CE f, CE l, int n, CE x) { return ttl::search_n(f, l, n, *x); }
CE al_search_n_p(CE f, CE l, int n, CE x) { return ttl::search_n(f, l, n, *x, P2()); }
int al_count(CE f, CE l, CE x) { return ttl::count(f, l, *x); }
int al_count_if(CE f, CE l) { return ttl::count_if(f, l, P1()); }
bool al_all_of(CE f, CE l) { return ttl::all_of(f, l, P1()); }
bool al_any_of(CE f, CE l) { return ttl::any_of(f, l, P1()); }
bool al_none_of(CE f, CE l) { return ttl::none_of(f, l, P1()); }
CE al_adjacent_find(CE f, CE l) { return ttl::adjacent_find(f, l); }
CE al_adjacent_find_p(CE f, CE l) { return ttl::adjacent_find(f, l, P2()); }
bool al_equal3(CE f, CE l, CE g) { return ttl::equal(f, l, g); }
bool al_equal3_p(CE f, CE l, CE g) { return ttl::equal(f, l, g, P2()); }
bool al_equal4(CE f, CE l, CE g, CE h) { return ttl::equal(f, l, g, h); }
bool al_equal4_p(CE f, CE l, CE g, CE h) { return ttl::equal(f, l, g, h, P2()); }
void al_mismatch3(PP *r, CE f, CE l, CE g) { ::new(r) PP(ttl::mismatch(f, l, g)); }
void al_mismatch3_p(PP *r, CE f, CE l, CE g) { ::new(r) PP(ttl::mismatch(f, l, g, P2())); }
void al_mismatch4(PP *r, CE f, CE l, CE g, CE h) { ::new(r) PP(ttl::mismatch(f, l, g, h)); }
void al_mismatch4_p(PP *r, CE f, CE l, CE g, CE h) { ::new(r) PP(ttl::mismatch(f, l, g, h, P2())); }
void al_for_each(E *f, E *l) { ttl::for_each(f, l, F1()); }
void al_accumulate(E *r, CE f, CE l, CE x) { *r = ttl::accumulate(f, l, *x); }
CE al_is_sorted_until(CE f, CE l) { return ttl::is_sorted_until(f, l); }
bool al_is_sorted(CE f, CE l) { return ttl::is_sorted(f, l); }
// modifying
void al_iter_swap(E *a, E *b) { ttl::iter_swap(a, b); }
E *al_swap_ranges(E *f, E *l, E *g) { return ttl::swap_ranges(f, l, g); }
void al_fill(E *f, E *l, CE x) { ttl::fill(f, l, *x); }
E *al_fill_n(E *f, int n, CE x) { return ttl::fill_n(f, n, *x); }
E *al_copy(CE f, CE l, E *d) { return ttl::copy(f, l, d); }
E *al_copy_if(CE f, CE l, E *d) { return ttl::copy_if(f, l, d, P1()); }
E *al_copy_n(CE f, int n, E *d) { return ttl::copy_n(f, n, d); }
E *al_copy_backward(CE f, CE l, E *d) { return ttl::copy_backward(f, l, d); }
void al_generate(E *f, E *l) { ttl::generate(f, l, G0()); }
E *al_generate_n(E *f, int n) { return ttl::generate_n(f, n, G0()); }
void al_replace(E *f, E *l, CE a, CE b) { ttl::replace(f, l, *a, *b); }
void al_replace_if(E *f, E *l, CE b) { ttl::replace_if(f, l, P1(), *b); }
E *al_replace_copy(CE f, CE l, E *d, CE a, CE b) { return ttl::replace_copy(f, l, d, *a, *b); }
E *al_replace_copy_if(CE f, CE l, E *d, CE b) { return ttl::replace_copy_if(f, l, d, P1(), *b); }
E *al_remove_copy(CE f, CE l, E *d, CE x) { return ttl::remove_copy(f, l, d, *x); }
E *al_remove_copy_if(CE f, CE l, E *d) { return ttl::remove_copy_if(f, l, d, P1()); }
E *al_remove(E *f, E *l, CE x) { return ttl::remove(f, l, *x); }
E *al_remove_if(E *f, E *l) { return ttl::remove_if(f, l, P1()); }
E *al_transform(CE f, CE l, E *d) { return ttl::transform(f, l, d, U1()); }
E *al_transform2(CE f, CE l, CE g, E *d) { return ttl::transform(f, l, g, d, U2()); }
void al_reverse(E *f, E *l) { ttl::reverse(f, l); }
E *al_reverse_copy(CE f, CE l, E *d) { return ttl::reverse_copy(f, l, d); }
E *al_merge(CE f, CE l, CE g, CE h, E *d) { return ttl::merge(f, l, g, h, d); }
void al_iota(E *f, E *l, CE x) { ttl::iota(f, l, *x); }
// binary search and extrema
CE al_lower_bound(CE f, CE l, CE x) { return ttl::lower_bound(f, l, *x); }
CE al_lower_bound_c(CE f, CE l, CE x) { return ttl::lower_bound(f, l, *x, P2()); }
CE al_upper_bound(CE f, CE l, CE x) { return ttl::upper_bound(f, l, *x); }
CE al_upper_bound_c(CE f, CE l, CE x) { return ttl::upper_bound(f, l, *x, P2()); }
bool al_binary_search(CE f, CE l, CE x) { return ttl::binary_search(f, l, *x); }
bool al_binary_search_c(CE f, CE l, CE x) { return ttl::binary_search(f, l, *x, P2()); }
void al_equal_range(PP *r, CE f, CE l, CE x) { ::new(r) PP(ttl::equal_range(f, l, *x)); }
void al_equal_range_c(PP *r, CE f, CE l, CE x) { ::new(r) PP(ttl::equal_range(f, l, *x, P2())); }
CE al_min(CE a, CE b) { return &ttl::min(*a, *b); }
CE al_min_c(CE a, CE b) { return &ttl::min(*a, *b, P2()); }
CE al_max(CE a, CE b) { return &ttl::max(*a, *b); }
CE al_max_c(CE a, CE b) { return &ttl::max(*a, *b, P2()); }
void al_minmax(RR *r, CE a, CE b) { ::new(r) RR(ttl::minmax(*a, *b)); }
void al_minmax_c(RR *r, CE a, CE b) { ::new(r) RR(ttl::minmax(*a, *b, P2())); }
CE al_min_element(CE f, CE l) { return ttl::min_element(f, l); }
CE al_max_element(CE f, CE l) { return ttl::max_element(f, l); }
void al_minmax_element(PP *r, CE f, CE l) { ::new(r) PP(ttl::minmax_element(f, l)); }
}
