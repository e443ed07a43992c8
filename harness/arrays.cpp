// array, pair, the value utilities and the function objects
#include "common.hpp"
typedef ttl::pair<E, E> PR;
typedef ttl::pair<const E, E> CP;
#define X extern "C"
#define ARR(p, N) \
typedef ttl::array<E, N> A##N; \
X void p##_fill(A##N *a, const E *v) { a->fill(*v); } \
X void p##_swap(A##N *a, A##N *b) { a->swap(*b); } \
X E *p##_begin(A##N *a) { return a->begin(); } \
X E *p##_end(A##N *a) { return a->end(); } \
X const E *p##_beginc(const A##N *a) { return a->begin(); } \
X const E *p##_endc(const A##N *a) { return a->end(); } \
X const E *p##_cbegin(const A##N *a) { return a->cbegin(); } \
X const E *p##_cend(const A##N *a) { return a->cend(); } \
X sz p##_size(const A##N *a) { return a->size(); } \
X sz p##_max_size(const A##N *a) { return a->max_size(); } \
X bool p##_empty(const A##N *a) { return a->empty(); } \
X E *p##_index(A##N *a, sz i) { return &(*a)[i]; } \
X const E *p##_cindex(const A##N *a, sz i) { return &(*a)[i]; } \
X E *p##_at(A##N *a, sz i) { return &a->at(i); } \
X const E *p##_cat(const A##N *a, sz i) { return &a->at(i); } \
X E *p##_front(A##N *a) { return &a->front(); } \
X const E *p##_cfront(const A##N *a) { return &a->front(); } \
X E *p##_back(A##N *a) { return &a->back(); } \
X const E *p##_cback(const A##N *a) { return &a->back(); } \
X E *p##_data(A##N *a) { return a->data(); } \
X const E *p##_cdata(const A##N *a) { return a->data(); } \
X bool p##_eq(const A##N *a, const A##N *b) { return *a == *b; } \
X bool p##_ne(const A##N *a, const A##N *b) { return *a != *b; } \
X void p##_copy(A##N *a, const A##N *b) { ::new(a) A##N(*b); } \
X void p##_asg(A##N *a, const A##N *b) { *a = *b; }
ARR(a0, 0)
ARR(a1, 1)
ARR(a5, 5)
X void pr_ctor(PR *p) { ::new(p) PR; }
X void pr_ctor2(PR *p, const E *a, const E *b) { ::new(p) PR(*a, *b); }
X void pr_copy(PR *p, const PR *o) { ::new(p) PR(*o); }
X void pr_conv(PR *p, const CP *o) { ::new(p) PR(*o); }
X void pr_asg(PR *p, const PR *o) { *p = *o; }
X void pr_asgc(PR *p, const CP *o) { *p = *o; }
X void pr_swap(PR *p, PR *o) { p->swap(*o); }
X void pr_make(PR *p, const E *a, const E *b) { ::new(p) PR(ttl::make_pair(*a, *b)); }
X bool pr_eq(const PR *a, const PR *b) { return *a == *b; }
X bool pr_ne(const PR *a, const PR *b) { return *a != *b; }
X E *pr_first(PR *p) { return &ttl::select_first<PR>()(*p); }
X const E *pr_cfirst(const PR *p) { return &ttl::select_first<PR>()(*p); }
X E *pr_second(PR *p) { return &ttl::select_second<PR>()(*p); }
X const E *pr_csecond(const PR *p) { return &ttl::select_second<PR>()(*p); }
X const E *ut_same(const E *a) { return &ttl::select_same<E>()(*a); }
X void ut_swap(E *a, E *b) { ttl::swap(*a, *b); }
X void ut_swap_pair(PR *a, PR *b) { ttl::swap(*a, *b); }
X E *ut_move(E *a) { E &&r = ttl::move(*a); return &r; }
X int ut_distance(const E *a, const E *b) { return ttl::distance(a, b); }
X const E *ut_advance(const E *a, long n) { ttl::advance(a, n); return a; }
X bool fo_less(const E *a, const E *b) { return ttl::less<E>()(*a, *b); }
X bool fo_greater(const E *a, const E *b) { return ttl::greater<E>()(*a, *b); }
X bool fo_equal(const E *a, const E *b) { return ttl::equal_to<E>()(*a, *b); }
X bool fo_not_equal(const E *a, const E *b) { return ttl::not_equal_to<E>()(*a, *b); }
X const sz z_a0, z_a1, z_a5, z_pr, z_second;
const sz z_a0 = sizeof(A0), z_a1 = sizeof(A1), z_a5 = sizeof(A5), z_pr = sizeof(PR), z_second = __builtin_offsetof(PR, second);
extern E ut_arr[7];
X sz ut_countof(void) { return countof(ut_arr); }
X sz ut_ttl_countof(void) { return ttl_countof(ut_arr); }
