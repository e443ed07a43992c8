#include "pairs.hpp"
#include "common.hpp"
typedef ttl::sorted_vector_map<K, M, CK> SM;
typedef ttl::vector_map<K, M> VM;
typedef SM::iterator SI;
typedef SM::const_iterator SC;
extern "C" {
extern const sz sm_sizeof = sizeof(SM), vm_sizeof = sizeof(VM), pair_sizeof = sizeof(P);
void sm_ctor(SM *m) { ::new(m) SM(); }
void sm_ctor_prealloc(SM *m, sz n) { ::new(m) SM(n); }
void sm_ctor_copy(SM *m, const SM *o) { ::new(m) SM(*o); }
void sm_dtor(SM *m) { m->~SM(); }
M *sm_index(SM *m, const K *k) { return &(*m)[*k]; }
M *sm_at(SM *m, const K *k) { return &m->at(*k); }
const M *sm_cat(const SM *m, const K *k) { return &m->at(*k); }
void sm_begin(SI *r, SM *m) { ::new(r) SI(m->begin()); }
void sm_end(SI *r, SM *m) { ::new(r) SI(m->end()); }
void sm_beginc(SC *r, const SM *m) { ::new(r) SC(m->begin()); }
void sm_endc(SC *r, const SM *m) { ::new(r) SC(m->end()); }
void sm_cbegin(SC *r, const SM *m) { ::new(r) SC(m->cbegin()); }
void sm_cend(SC *r, const SM *m) { ::new(r) SC(m->cend()); }
sz sm_size(const SM *m) { return m->size(); }
bool sm_empty(const SM *m) { return m->empty(); }
void sm_clear(SM *m) { m->clear(); }
bool sm_insert(SI *r, SM *m, const P *v) { ttl::pair<SI, bool> p = m->insert(*v); ::new(r) SI(p.first); return p.second; }
void sm_find(SI *r, SM *m, const K *k) { ::new(r) SI(m->find(*k)); }
void sm_cfind(SC *r, const SM *m, const K *k) { ::new(r) SC(m->find(*k)); }
sz sm_count(const SM *m, const K *k) { return m->count(*k); }
void sm_equal_range(SI *r, SI *q, SM *m, const K *k) { ttl::pair<SI, SI> p = m->equal_range(*k); ::new(r) SI(p.first); ::new(q) SI(p.second); }
void sm_cequal_range(SC *r, SC *q, const SM *m, const K *k) { ttl::pair<SC, SC> p = m->equal_range(*k); ::new(r) SC(p.first); ::new(q) SC(p.second); }
void sm_lower_bound(SI *r, SM *m, const K *k) { ::new(r) SI(m->lower_bound(*k)); }
void sm_clower_bound(SC *r, const SM *m, const K *k) { ::new(r) SC(m->lower_bound(*k)); }
void sm_upper_bound(SI *r, SM *m, const K *k) { ::new(r) SI(m->upper_bound(*k)); }
void sm_cupper_bound(SC *r, const SM *m, const K *k) { ::new(r) SC(m->upper_bound(*k)); }
bool sm_value_comp(const SM *m, const P *a, const P *b) { return m->value_comp()(*a, *b); }
bool sm_key_comp(const SM *m, const K *a, const K *b) { return m->key_comp()(*a, *b); }
// iterators
P *si_deref(const SI *i) { return &**i; }
M *si_arrow(const SI *i) { return &(*i)->second; }
void si_inc(SI *i) { ++*i; }
void si_dec(SI *i) { --*i; }
void si_postinc(SI *r, SI *i) { ::new(r) SI((*i)++); }
void si_postdec(SI *r, SI *i) { ::new(r) SI((*i)--); }
bool si_eq(const SI *a, const SI *b) { return *a == *b; }
bool si_ne(const SI *a, const SI *b) { return *a != *b; }
bool si_eqc(const SI *a, const SC *b) { return *a == *b; }
bool si_nec(const SI *a, const SC *b) { return *a != *b; }
const P *sc_deref(const SC *i) { return &**i; }
const M *sc_arrow(const SC *i) { return &(*i)->second; }
void sc_inc(SC *i) { ++*i; }
void sc_dec(SC *i) { --*i; }
void sc_postinc(SC *r, SC *i) { ::new(r) SC((*i)++); }
void sc_postdec(SC *r, SC *i) { ::new(r) SC((*i)--); }
bool sc_eq(const SC *a, const SC *b) { return *a == *b; }
bool sc_ne(const SC *a, const SC *b) { return *a != *b; }
bool sc_eqi(const SC *a, const SI *b) { return *a == *b; }
bool sc_nei(const SC *a, const SI *b) { return *a != *b; }
void sc_conv(SC *r, const SI *i) { ::new(r) SC(*i); }
// vector_map
void vm_ctor(VM *m) { ::new(m) VM(); }
void vm_ctor_copy(VM *m, const VM *o) { ::new(m) VM(*o); }
void vm_dtor(VM *m) { m->~VM(); }
M *vm_index(VM *m, const K *k) { return &(*m)[*k]; }
M *vm_at(VM *m, const K *k) { return &m->at(*k); }
const M *vm_cat(const VM *m, const K *k) { return &m->at(*k); }
P *vm_begin(VM *m) { return m->begin(); }
P *vm_end(VM *m) { return m->end(); }
const P *vm_beginc(const VM *m) { return m->begin(); }
const P *vm_endc(const VM *m) { return m->end(); }
const P *vm_cbegin(const VM *m) { return m->cbegin(); }
const P *vm_cend(const VM *m) { return m->cend(); }
P *vm_find(VM *m, const K *k) { return m->find(*k); }
const P *vm_cfind(const VM *m, const K *k) { return m->find(*k); }
sz vm_count(const VM *m, const K *k) { return m->count(*k); }
bool vm_insert(P **r, VM *m, const P *v) { ttl::pair<P *, bool> p = m->insert(*v); *r = p.first; return p.second; }
sz vm_size(const VM *m) { return m->size(); }
bool vm_empty(const VM *m) { return m->empty(); }
void vm_clear(VM *m) { m->clear(); }
void vm_erase(VM *m, const P *p) { m->erase(p); }
}
