// rbtree, set and map over an opaque element type
#include "common.hpp"
#define X extern "C"
typedef ttl::rbtree<E, E, ttl::select_same<E>, ttl::less<E> > RB;
typedef RB::node N; typedef ttl::rbnode B;
typedef ttl::set<E> ST; typedef ttl::map<E, E> MP;
X const sz z_tree = sizeof(RB), z_node = sizeof(N), z_left = __builtin_offsetof(B, left), z_right = __builtin_offsetof(B, right),
   z_color = __builtin_offsetof(B, color), z_set = sizeof(ST), z_map = sizeof(MP);
struct NB { N *n; bool b; };
X void rb_ctor(RB *t) { ::new(t) RB; }
X void rb_dtor(RB *t) { t->~RB(); }
X void rb_assign(RB *t, const RB *o) { t->assign(*o); }
X void rb_clear(RB *t) { t->clear(); }
X void rb_insert_unique(NB *o, RB *t, const E *v) { ttl::pair<N *, bool> r = t->insert_unique(*v); o->n = r.first; o->b = r.second; }
X N *rb_insert_equal(RB *t, const E *v) { return t->insert_equal(*v); }
X N *rb_remove(RB *t, const E *k) { return t->remove(*k); }
X N *rb_find(RB *t, const E *k) { return t->find(*k); }
X N *rb_lower(RB *t, const E *k) { return t->lower_bound(*k); }
X N *rb_upper(RB *t, const E *k) { return t->upper_bound(*k); }
X const N *rb_cfind(const RB *t, const E *k) { return t->find(*k); }
X const N *rb_clower(const RB *t, const E *k) { return t->lower_bound(*k); }
X const N *rb_cupper(const RB *t, const E *k) { return t->upper_bound(*k); }
struct NN { const void *a, *b; };
X void rb_equal(NN *o, RB *t, const E *k) { ttl::pair<N *, N *> r = t->equal_range(*k); o->a = r.first; o->b = r.second; }
X void rb_cequal(NN *o, const RB *t, const E *k) { ttl::pair<const N *, const N *> r = t->equal_range(*k); o->a = r.first; o->b = r.second; }
X sz rb_count(const RB *t, const E *k) { return t->count(*k); }
X B *rb_next(const B *n) { return RB::next_node(n); }
X B *rb_prev(const B *n) { return RB::prev_node(n); }
X B *rb_min(const B *n) { return RB::min_node(n); }
X B *rb_max(const B *n) { return RB::max_node(n); }
X const N *rb_root(const RB *t) { return t->get_root(); }
X const N *rb_end(const RB *t) { return t->end(); }
#define P_(i) (*reinterpret_cast<const void *const *>(&(i)))
#define COMMON(p, T) \
X void p##_ctor(T *t) { ::new(t) T; } \
X void p##_dtor(T *t) { t->~T(); } \
X void p##_copy(T *t, const T *o) { ::new(t) T(*o); } \
X void p##_asg(T *t, const T *o) { *t = *o; } \
X void p##_clear(T *t) { t->clear(); } \
X bool p##_empty(const T *t) { return t->empty(); } \
X sz p##_erase(T *t, const E *k) { return t->erase(*k); } \
X void p##_find(NN *o, T *t, const E *k) { T::iterator i = t->find(*k); o->a = P_(i); } \
X void p##_cfind(NN *o, const T *t, const E *k) { T::const_iterator i = t->find(*k); o->a = P_(i); } \
X void p##_lower(NN *o, T *t, const E *k) { T::iterator i = t->lower_bound(*k); o->a = P_(i); } \
X void p##_clower(NN *o, const T *t, const E *k) { T::const_iterator i = t->lower_bound(*k); o->a = P_(i); } \
X void p##_upper(NN *o, T *t, const E *k) { T::iterator i = t->upper_bound(*k); o->a = P_(i); } \
X void p##_cupper(NN *o, const T *t, const E *k) { T::const_iterator i = t->upper_bound(*k); o->a = P_(i); } \
X void p##_equal(NN *o, T *t, const E *k) { ttl::pair<T::iterator, T::iterator> r = t->equal_range(*k); o->a = P_(r.first); o->b = P_(r.second); } \
X void p##_cequal(NN *o, const T *t, const E *k) { ttl::pair<T::const_iterator, T::const_iterator> r = t->equal_range(*k); o->a = P_(r.first); o->b = P_(r.second); } \
X sz p##_count(const T *t, const E *k) { return t->count(*k); } \
X void p##_begin(NN *o, T *t) { T::iterator i = t->begin(); o->a = P_(i); } \
X void p##_cbegin(NN *o, const T *t) { T::const_iterator i = t->begin(); o->a = P_(i); } \
X void p##_ccbegin(NN *o, const T *t) { T::const_iterator i = t->cbegin(); o->a = P_(i); } \
X void p##_end(NN *o, T *t) { T::iterator i = t->end(); o->a = P_(i); } \
X void p##_cend(NN *o, const T *t) { T::const_iterator i = t->end(); o->a = P_(i); } \
X void p##_ccend(NN *o, const T *t) { T::const_iterator i = t->cend(); o->a = P_(i); } \
X void p##i_inc(T::iterator *i) { ++*i; } \
X void p##i_dec(T::iterator *i) { --*i; } \
X void p##i_pinc(NN *o, T::iterator *i) { T::iterator j = (*i)++; o->a = P_(j); } \
X void p##i_pdec(NN *o, T::iterator *i) { T::iterator j = (*i)--; o->a = P_(j); } \
X const void *p##i_deref(const T::iterator *i) { return &**i; } \
X const void *p##i_arrow(const T::iterator *i) { return T::iterator(*i).operator->(); } \
X bool p##i_eq(const T::iterator *i, const T::iterator *j) { return *i == *j; } \
X bool p##i_ne(const T::iterator *i, const T::iterator *j) { return *i != *j; } \
X bool p##i_eqc(const T::iterator *i, const T::const_iterator *j) { return *i == *j; } \
X bool p##i_nec(const T::iterator *i, const T::const_iterator *j) { return *i != *j; } \
X void p##c_inc(T::const_iterator *i) { ++*i; } \
X void p##c_dec(T::const_iterator *i) { --*i; } \
X void p##c_pinc(NN *o, T::const_iterator *i) { T::const_iterator j = (*i)++; o->a = P_(j); } \
X void p##c_pdec(NN *o, T::const_iterator *i) { T::const_iterator j = (*i)--; o->a = P_(j); } \
X const void *p##c_deref(const T::const_iterator *i) { return &**i; } \
X const void *p##c_arrow(const T::const_iterator *i) { return T::const_iterator(*i).operator->(); } \
X bool p##c_eq(const T::const_iterator *i, const T::const_iterator *j) { return *i == *j; } \
X bool p##c_ne(const T::const_iterator *i, const T::const_iterator *j) { return *i != *j; } \
X bool p##c_eqi(const T::const_iterator *i, const T::iterator *j) { return *i == *j; } \
X bool p##c_nei(const T::const_iterator *i, const T::iterator *j) { return *i != *j; } \
X void p##c_conv(NN *o, const T::iterator *i) { T::const_iterator j(*i); o->a = P_(j); } \
X bool p##_eq(const T *a, const T *b) { return *a == *b; } \
X bool p##_ne(const T *a, const T *b) { return *a != *b; }
COMMON(st, ST)
COMMON(mp, MP)
struct IB { const void *n; bool b; };
X void st_insert(IB *o, ST *t, const E *v) { ttl::pair<ST::iterator, bool> r = t->insert(*v); o->n = P_(r.first); o->b = r.second; }
X void mp_insert(IB *o, MP *t, const MP::value_type *v) { ttl::pair<MP::iterator, bool> r = t->insert(*v); o->n = P_(r.first); o->b = r.second; }
X void st_insert_range(ST *t, const E *a, const E *b) { t->insert(a, b); }
X void st_range(ST *t, const E *a, const E *b) { ::new(t) ST(a, b); }
X void mp_insert_range(MP *t, const MP::value_type *a, const MP::value_type *b) { t->insert(a, b); }
X void mp_range(MP *t, const MP::value_type *a, const MP::value_type *b) { ::new(t) MP(a, b); }
X E *mp_idx(MP *t, const E *k) { return &(*t)[*k]; }
X E *mp_at(MP *t, const E *k) { return &t->at(*k); }
X const E *mp_cat(const MP *t, const E *k) { return &t->at(*k); }
X bool mp_vcomp(const MP::value_type *a, const MP::value_type *b) { return MP::value_compare()(*a, *b); }
