#include "common.hpp"
#define OPS(P, T) \
extern "C" { \
extern const sz P##_sizeof = sizeof(T); \
void P##_ctor(T *l) { ::new(l) T(); } \
void P##_ctor_size(T *l, sz n) { ::new(l) T(n); } \
void P##_ctor_n(T *l, sz n, const E *x) { ::new(l) T(n, *x); } \
void P##_ctor_copy(T *l, const T *o) { ::new(l) T(*o); } \
void P##_ctor_range(T *l, const E *f, const E *e) { ::new(l) T(f, e); } \
void P##_dtor(T *l) { l->~T(); } \
void P##_assign_op(T *l, const T *o) { *l = *o; } \
void P##_assign_n(T *l, sz n, const E *x) { l->assign(n, *x); } \
void P##_assign_range(T *l, const E *f, const E *e) { l->assign(f, e); } \
E *P##_begin(T *l) { return l->begin(); } \
const E *P##_beginc(const T *l) { return l->begin(); } \
E *P##_end(T *l) { return l->end(); } \
const E *P##_endc(const T *l) { return l->end(); } \
const E *P##_cbegin(const T *l) { return l->cbegin(); } \
const E *P##_cend(const T *l) { return l->cend(); } \
sz P##_size(const T *l) { return l->size(); } \
bool P##_empty(const T *l) { return l->empty(); } \
sz P##_capacity(const T *l) { return l->capacity(); } \
void P##_resize(T *l, sz n) { l->resize(n); } \
void P##_resize_v(T *l, sz n, const E *x) { l->resize(n, *x); } \
E *P##_index(T *l, sz n) { return &(*l)[n]; } \
const E *P##_cindex(const T *l, sz n) { return &(*l)[n]; } \
E *P##_at(T *l, sz n) { return &l->at(n); } \
const E *P##_cat(const T *l, sz n) { return &l->at(n); } \
E *P##_front(T *l) { return &l->front(); } \
const E *P##_cfront(const T *l) { return &l->front(); } \
E *P##_back(T *l) { return &l->back(); } \
const E *P##_cback(const T *l) { return &l->back(); } \
E *P##_data(T *l) { return l->data(); } \
const E *P##_cdata(const T *l) { return l->data(); } \
E *P##_insert(T *l, const E *p, const E *x) { return l->insert(p, *x); } \
E *P##_insert_n(T *l, const E *p, sz n, const E *x) { return l->insert(p, n, *x); } \
E *P##_insert_range(T *l, const E *p, const E *f, const E *e) { return l->insert(p, f, e); } \
void P##_push_back(T *l, const E *x) { l->push_back(*x); } \
void P##_pop_back(T *l) { l->pop_back(); } \
E *P##_erase(T *l, const E *p) { return l->erase(p); } \
E *P##_erase_range(T *l, const E *p, const E *q) { return l->erase(p, q); } \
void P##_swap(T *l, T *o) { l->swap(*o); } \
void P##_clear(T *l) { l->clear(); } \
bool P##_eq(const T *a, const T *b) { return *a == *b; } \
bool P##_ne(const T *a, const T *b) { return *a != *b; } \
}
typedef ttl::vector<E> VE;
OPS(ve, VE)
extern "C" void ve_reserve(VE *l, sz n) { l->reserve(n); }
#ifndef FVN
#define FVN 4
#endif
typedef ttl::fixed_vector<E, 1> F1V;
typedef ttl::fixed_vector<E, FVN> FNV;
OPS(f1, F1V)
OPS(fn, FNV)
typedef ttl::fixed_vector<E, 300> FBV;
OPS(fb, FBV)
extern "C" {
bool fb_full(const FBV *l) { return l->full(); }
sz fb_max_size(const FBV *l) { return l->max_size(); }
bool f1_full(const F1V *l) { return l->full(); }
bool fn_full(const FNV *l) { return l->full(); }
sz f1_max_size(const F1V *l) { return l->max_size(); }
sz fn_max_size(const FNV *l) { return l->max_size(); }
}
