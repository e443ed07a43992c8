#include "common.hpp"
#define COMMON(P, T) \
extern "C" { \
extern const sz P##_sizeof = sizeof(T); \
void P##_ctor(T *l) { ::new(l) T(); } \
void P##_ctor_copy(T *l, const T *o) { ::new(l) T(*o); } \
void P##_ctor_n(T *l, sz n, const E *x) { ::new(l) T(n, *x); } \
void P##_dtor(T *l) { l->~T(); } \
void P##_assign_op(T *l, const T *o) { *l = *o; } \
void P##_push_front(T *l, const E *x) { l->push_front(*x); } \
void P##_pop_front(T *l) { l->pop_front(); } \
void P##_insert(T::iterator *r, T *l, const T::const_iterator *p, const E *x) { ::new(r) T::iterator(l->insert_after(*p, *x)); } \
void P##_insert_n(T *l, const T::const_iterator *p, sz n, const E *x) { l->insert_after(*p, n, *x); } \
void P##_insert_range(T *l, const T::const_iterator *p, const E *f, const E *e) { l->insert_after(*p, f, e); } \
void P##_erase(T::iterator *r, T *l, const T::const_iterator *p) { ::new(r) T::iterator(l->erase_after(*p)); } \
void P##_erase_range(T::iterator *r, T *l, const T::const_iterator *p, const T::const_iterator *q) { ::new(r) T::iterator(l->erase_after(*p, *q)); } \
void P##_swap(T *l, T *o) { l->swap(*o); } \
void P##_clear(T *l) { l->clear(); } \
bool P##_empty(const T *l) { return l->empty(); } \
const E *P##_front(T *l) { return &l->front(); } \
const E *P##_cfront(const T *l) { return &l->front(); } \
void P##_begin(T::iterator *r, T *l) { ::new(r) T::iterator(l->begin()); } \
void P##_end(T::iterator *r, T *l) { ::new(r) T::iterator(l->end()); } \
void P##_before_begin(T::iterator *r, T *l) { ::new(r) T::iterator(l->before_begin()); } \
void P##_cbegin(T::const_iterator *r, const T *l) { ::new(r) T::const_iterator(l->cbegin()); } \
void P##_cend(T::const_iterator *r, const T *l) { ::new(r) T::const_iterator(l->cend()); } \
void P##_cbefore_begin(T::const_iterator *r, const T *l) { ::new(r) T::const_iterator(l->cbefore_begin()); } \
void P##_beginc(T::const_iterator *r, const T *l) { ::new(r) T::const_iterator(l->begin()); } \
void P##_endc(T::const_iterator *r, const T *l) { ::new(r) T::const_iterator(l->end()); } \
void P##_before_beginc(T::const_iterator *r, const T *l) { ::new(r) T::const_iterator(l->before_begin()); } \
void P##_it_inc(T::iterator *r, T::iterator *i) { ::new(r) T::iterator(++*i); } \
void P##_it_pinc(T::iterator *r, T::iterator *i) { ::new(r) T::iterator((*i)++); } \
void P##_cit_inc(T::const_iterator *r, T::const_iterator *i) { ::new(r) T::const_iterator(++*i); } \
void P##_cit_pinc(T::const_iterator *r, T::const_iterator *i) { ::new(r) T::const_iterator((*i)++); } \
const E *P##_it_deref(T::iterator *i) { return &**i; } \
const E *P##_it_arrow(T::iterator *i) { return i->operator->(); } \
const E *P##_cit_deref(T::const_iterator *i) { return &**i; } \
const E *P##_cit_arrow(T::const_iterator *i) { return i->operator->(); } \
void P##_cit_conv(T::const_iterator *r, const T::iterator *i) { ::new(r) T::const_iterator(*i); } \
bool P##_it_eq(const T::iterator *a, const T::iterator *b) { return *a == *b; } \
bool P##_it_ne(const T::iterator *a, const T::iterator *b) { return *a != *b; } \
bool P##_it_eqc(const T::iterator *a, const T::const_iterator *b) { return *a == *b; } \
bool P##_it_nec(const T::iterator *a, const T::const_iterator *b) { return *a != *b; } \
bool P##_cit_eq(const T::const_iterator *a, const T::const_iterator *b) { return *a == *b; } \
bool P##_cit_ne(const T::const_iterator *a, const T::const_iterator *b) { return *a != *b; } \
}
#define RANGES(P, T) \
extern "C" { \
void P##_ctor_range(T *l, const E *f, const E *e) { ::new(l) T(f, e); } \
void P##_assign_range(T *l, const E *f, const E *e) { l->assign(f, e); } \
void P##_assign_n(T *l, sz n, const E *x) { l->assign(n, *x); } \
void P##_reverse(T *l) { l->reverse(); } \
bool P##_eq(const T *a, const T *b) { return *a == *b; } \
bool P##_ne(const T *a, const T *b) { return *a != *b; } \
}
#define TAILS(P, T) \
extern "C" { \
void P##_push_back(T *l, const E *x) { l->push_back(*x); } \
const E *P##_back(T *l) { return &l->back(); } \
const E *P##_cback(const T *l) { return &l->back(); } \
void P##_before_end(T::iterator *r, T *l) { ::new(r) T::iterator(l->before_end()); } \
void P##_cbefore_end(T::const_iterator *r, const T *l) { ::new(r) T::const_iterator(l->cbefore_end()); } \
void P##_before_endc(T::const_iterator *r, const T *l) { ::new(r) T::const_iterator(l->before_end()); } \
}
typedef ttl::forward_list<E> FL;
typedef ttl::backward_list<E> BL;
typedef ttl::lazy_queue<E> LQ;
COMMON(fl, FL) RANGES(fl, FL)
COMMON(bl, BL) RANGES(bl, BL) TAILS(bl, BL)
COMMON(lq, LQ) TAILS(lq, LQ)
extern "C" {
void fl_splice(FL *l, const FL::const_iterator *p, FL *o) { l->splice_after(*p, *o); }
void fl_splice_one(FL *l, const FL::const_iterator *p, FL *o, const FL::const_iterator *i) { l->splice_after(*p, *o, *i); }
void fl_splice_range(FL *l, const FL::const_iterator *p, FL *o, const FL::const_iterator *f, const FL::const_iterator *e) { l->splice_after(*p, *o, *f, *e); }
void lq_cleanup(LQ *l) { l->cleanup(); }
void lq_roll_head(LQ *l) { l->roll_head(); }
}
