#include "common.hpp"
typedef ttl::list<E> L;
typedef L::const_iterator CI;
typedef L::iterator I;
extern "C" {
void list_ctor(L *l) { ::new(l) L(); }
void list_ctor_copy(L *l, const L *o) { ::new(l) L(*o); }
void list_ctor_n(L *l, sz n, const E *x) { ::new(l) L(n, *x); }
void list_ctor_range(L *l, const E *f, const E *e) { ::new(l) L(f, e); }
void list_dtor(L *l) { l->~L(); }
void list_assign_op(L *l, const L *o) { *l = *o; }
void list_assign_range(L *l, const E *f, const E *e) { l->assign(f, e); }
void list_assign_n(L *l, sz n, const E *x) { l->assign(n, *x); }
void list_push_front(L *l, const E *x) { l->push_front(*x); }
void list_push_back(L *l, const E *x) { l->push_back(*x); }
void list_pop_front(L *l) { l->pop_front(); }
void list_pop_back(L *l) { l->pop_back(); }
void list_insert(I *r, L *l, const CI *p, const E *x) { ::new(r) I(l->insert(*p, *x)); }
void list_insert_n(L *l, const CI *p, sz n, const E *x) { l->insert(*p, n, *x); }
void list_insert_range(L *l, const CI *p, const E *f, const E *e) { l->insert(*p, f, e); }
void list_erase(I *r, L *l, const CI *p) { ::new(r) I(l->erase(*p)); }
void list_erase_range(I *r, L *l, const CI *p, const CI *q) { ::new(r) I(l->erase(*p, *q)); }
void list_splice(L *l, const CI *p, L *o) { l->splice(*p, *o); }
void list_splice_one(L *l, const CI *p, L *o, const CI *i) { l->splice(*p, *o, *i); }
void list_splice_range(L *l, const CI *p, L *o, const CI *f, const CI *e) { l->splice(*p, *o, *f, *e); }
void list_swap(L *l, L *o) { l->swap(*o); }
void list_resize(L *l, sz n) { l->resize(n); }
void list_resize_v(L *l, sz n, const E *x) { l->resize(n, *x); }
void list_clear(L *l) { l->clear(); }
void list_remove(L *l, const E *x) { l->remove(*x); }
void list_remove_if(L *l) { l->remove_if(P1()); }
void list_unique(L *l) { l->unique(); }
void list_unique_p(L *l) { l->unique(P2()); }
void list_merge(L *l, L *o) { l->merge(*o); }
void list_merge_c(L *l, L *o) { l->merge(*o, P2()); }
void list_reverse(L *l) { l->reverse(); }
sz list_size(const L *l) { return l->size(); }
bool list_empty(const L *l) { return l->empty(); }
const E *list_front(L *l) { return &l->front(); }
const E *list_back(L *l) { return &l->back(); }
const E *list_cfront(const L *l) { return &l->front(); }
const E *list_cback(const L *l) { return &l->back(); }
void list_begin(I *r, L *l) { ::new(r) I(l->begin()); }
void list_end(I *r, L *l) { ::new(r) I(l->end()); }
void list_cbegin(CI *r, const L *l) { ::new(r) CI(l->cbegin()); }
void list_cend(CI *r, const L *l) { ::new(r) CI(l->cend()); }
void list_beginc(CI *r, const L *l) { ::new(r) CI(l->begin()); }
void list_endc(CI *r, const L *l) { ::new(r) CI(l->end()); }
void list_it_inc(I *r, I *i) { ::new(r) I(++*i); }
void list_it_dec(I *r, I *i) { ::new(r) I(--*i); }
void list_it_pinc(I *r, I *i) { ::new(r) I((*i)++); }
void list_it_pdec(I *r, I *i) { ::new(r) I((*i)--); }
void list_cit_inc(CI *r, CI *i) { ::new(r) CI(++*i); }
void list_cit_dec(CI *r, CI *i) { ::new(r) CI(--*i); }
void list_cit_pinc(CI *r, CI *i) { ::new(r) CI((*i)++); }
void list_cit_pdec(CI *r, CI *i) { ::new(r) CI((*i)--); }
const E *list_it_deref(I *i) { return &**i; }
const E *list_cit_deref(CI *i) { return &**i; }
const E *list_it_arrow(I *i) { return i->operator->(); }
const E *list_cit_arrow(CI *i) { return i->operator->(); }
bool list_eq(const L *a, const L *b) { return *a == *b; }
bool list_ne(const L *a, const L *b) { return *a != *b; }
bool list_it_eq(const I *a, const I *b) { return *a == *b; }
bool list_it_ne(const I *a, const I *b) { return *a != *b; }
bool list_it_eqc(const I *a, const CI *b) { return *a == *b; }
bool list_it_nec(const I *a, const CI *b) { return *a != *b; }
bool list_cit_eqi(const CI *a, const I *b) { return *a == *b; }
bool list_cit_nei(const CI *a, const I *b) { return *a != *b; }
bool list_cit_eq(const CI *a, const CI *b) { return *a == *b; }
bool list_cit_ne(const CI *a, const CI *b) { return *a != *b; }
}
