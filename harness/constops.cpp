// every operation of the const interface: c_<container>_<op>(out, container, arguments...); only *out may be written
#include "common.hpp"
#include "ttl/bitset.hpp"
#include "ttl/array.hpp"
#define X extern "C"
#define OP(name, T, args, expr) X void c_##name args { typedef T C; typedef __typeof__(expr) R; ::new(o) R(expr); }
#define PTR(name, T, args, expr) X void c_##name args { typedef T C; *static_cast<const void **>(o) = &(expr); }
#define A0(T) (void *o, const T *c)
#define AI(T) (void *o, const T *c, sz i)
#define AK(T) (void *o, const T *c, const E *k)
#define ITER(P, T) \
OP(P##_begin, T, A0(T), c->begin()) OP(P##_end, T, A0(T), c->end()) OP(P##_cbegin, T, A0(T), c->cbegin()) OP(P##_cend, T, A0(T), c->cend()) \
PTR(P##_deref, T, A0(T), *c->begin()) PTR(P##_cderef, T, A0(T), *c->cbegin()) \
OP(P##_inc, T, A0(T), ({ T::const_iterator i = c->begin(); ++i; i; })) OP(P##_empty, T, A0(T), c->empty()) OP(P##_max_size, T, A0(T), c->max_size())
#define EQ(P, T) X void c_##P##_eq(bool *o, const T *c, const T *d) { *o = *c == *d; } \
X void c_##P##_ne(bool *o, const T *c, const T *d) { *o = *c != *d; }
typedef ttl::list<E> L; typedef ttl::forward_list<E> FL; typedef ttl::backward_list<E> BL; typedef ttl::lazy_queue<E> LQ;
typedef ttl::vector<E> V; typedef ttl::fixed_vector<E, 4> FV; typedef ttl::array<E, 3> AR;
typedef ttl::map<E, E> MP; typedef ttl::set<E> ST; typedef ttl::sorted_vector_map<E, E> SM; typedef ttl::vector_map<E, E> VM;
typedef ttl::bitset<70> BS; typedef ttl::pair<E, E> PR; typedef ttl::rbtree<E, E, ttl::select_same<E>, ttl::less<E> > RB;
ITER(list, L) ITER(fl, FL) ITER(bl, BL) ITER(lq, LQ) ITER(ve, V) ITER(fv, FV) ITER(ar, AR) ITER(mp, MP) ITER(st, ST) ITER(sm, SM) ITER(vm, VM)
EQ(list, L) EQ(fl, FL) EQ(bl, BL) EQ(ve, V) EQ(fv, FV) EQ(ar, AR) EQ(mp, MP) EQ(st, ST) EQ(bs, BS) EQ(pr, PR)
PTR(list_front, L, A0(L), c->front()) PTR(list_back, L, A0(L), c->back()) OP(list_size, L, A0(L), c->size()) OP(list_dec, L, A0(L), --c->end())
PTR(fl_front, FL, A0(FL), c->front()) OP(fl_before, FL, A0(FL), c->before_begin()) OP(fl_cbefore, FL, A0(FL), c->cbefore_begin())
PTR(bl_front, BL, A0(BL), c->front()) PTR(bl_back, BL, A0(BL), c->back()) OP(bl_before, BL, A0(BL), c->before_begin()) OP(bl_bend, BL, A0(BL), c->before_end())
PTR(lq_front, LQ, A0(LQ), c->front()) PTR(lq_back, LQ, A0(LQ), c->back()) OP(lq_before, LQ, A0(LQ), c->before_begin()) OP(lq_bend, LQ, A0(LQ), c->before_end())
PTR(ve_front, V, A0(V), c->front()) PTR(ve_back, V, A0(V), c->back()) OP(ve_size, V, A0(V), c->size()) OP(ve_capacity, V, A0(V), c->capacity())
PTR(ve_at, V, AI(V), c->at(i)) PTR(ve_idx, V, AI(V), (*c)[i]) OP(ve_data, V, A0(V), c->data())
PTR(fv_front, FV, A0(FV), c->front()) PTR(fv_back, FV, A0(FV), c->back()) OP(fv_size, FV, A0(FV), c->size()) OP(fv_capacity, FV, A0(FV), c->capacity())
PTR(fv_at, FV, AI(FV), c->at(i)) PTR(fv_idx, FV, AI(FV), (*c)[i]) OP(fv_data, FV, A0(FV), c->data()) OP(fv_full, FV, A0(FV), c->full())
PTR(ar_front, AR, A0(AR), c->front()) PTR(ar_back, AR, A0(AR), c->back()) OP(ar_size, AR, A0(AR), c->size())
PTR(ar_at, AR, AI(AR), c->at(i)) PTR(ar_idx, AR, AI(AR), (*c)[i]) OP(ar_data, AR, A0(AR), c->data())
#define LOOK(P, T) OP(P##_find, T, AK(T), c->find(*k)) OP(P##_count, T, AK(T), c->count(*k)) \
OP(P##_lower, T, AK(T), c->lower_bound(*k)) OP(P##_upper, T, AK(T), c->upper_bound(*k)) \
X void c_##P##_range(void *o, const T *c, const E *k) { ::new(o) ttl::pair<T::const_iterator, T::const_iterator>(c->equal_range(*k)); }
LOOK(mp, MP) LOOK(st, ST) LOOK(sm, SM)
PTR(mp_at, MP, AK(MP), c->at(*k)) PTR(sm_at, SM, AK(SM), c->at(*k)) PTR(vm_at, VM, AK(VM), c->at(*k))
OP(mp_dec, MP, A0(MP), --c->end()) OP(st_dec, ST, A0(ST), --c->end()) OP(sm_dec, SM, A0(SM), --c->end())
OP(sm_size, SM, A0(SM), c->size()) OP(vm_size, VM, A0(VM), c->size()) OP(vm_find, VM, AK(VM), c->find(*k)) OP(vm_count, VM, AK(VM), c->count(*k))
OP(rb_find, RB, AK(RB), c->find(*k)) OP(rb_count, RB, AK(RB), c->count(*k)) OP(rb_lower, RB, AK(RB), c->lower_bound(*k)) OP(rb_upper, RB, AK(RB), c->upper_bound(*k))
OP(rb_root, RB, A0(RB), c->get_root()) OP(rb_end, RB, A0(RB), c->end())
OP(rb_min, ttl::rbnode, A0(ttl::rbnode), ttl::rbtree_base::min_node(c)) OP(rb_max, ttl::rbnode, A0(ttl::rbnode), ttl::rbtree_base::max_node(c))
OP(rb_next, ttl::rbnode, A0(ttl::rbnode), ttl::rbtree_base::next_node(c)) OP(rb_prev, ttl::rbnode, A0(ttl::rbnode), ttl::rbtree_base::prev_node(c))
OP(bs_at, BS, AI(BS), (*c)[i]) OP(bs_test, BS, AI(BS), c->test(i)) OP(bs_all, BS, A0(BS), c->all()) OP(bs_any, BS, A0(BS), c->any())
OP(bs_none, BS, A0(BS), c->none()) OP(bs_count, BS, A0(BS), c->count()) OP(bs_not, BS, A0(BS), ~*c) OP(bs_shl, BS, AI(BS), *c << i)
OP(bs_shr, BS, AI(BS), *c >> i) OP(bs_ulong, BS, A0(BS), c->to_ulong()) OP(bs_ullong, BS, A0(BS), c->to_ullong()) OP(bs_slot, BS, AI(BS), c->slot(i))
X void c_bs_and(BS *o, const BS *c, const BS *d) { ::new(o) BS(*c & *d); }
X void c_bs_or(BS *o, const BS *c, const BS *d) { ::new(o) BS(*c | *d); }
X void c_bs_xor(BS *o, const BS *c, const BS *d) { ::new(o) BS(*c ^ *d); }
X void c_list_copy(L *o, const L *c) { ::new(o) L(*c); }
X void c_fl_copy(FL *o, const FL *c) { ::new(o) FL(*c); }
X void c_bl_copy(BL *o, const BL *c) { ::new(o) BL(*c); }
X void c_lq_copy(LQ *o, const LQ *c) { ::new(o) LQ(*c); }
X void c_ve_copy(V *o, const V *c) { ::new(o) V(*c); }
X void c_fv_copy(FV *o, const FV *c) { ::new(o) FV(*c); }
X void c_mp_copy(MP *o, const MP *c) { ::new(o) MP(*c); }
X void c_st_copy(ST *o, const ST *c) { ::new(o) ST(*c); }
X void c_sm_copy(SM *o, const SM *c) { ::new(o) SM(*c); }
X void c_vm_copy(VM *o, const VM *c) { ::new(o) VM(*c); }
X void c_pr_copy(PR *o, const PR *c) { ::new(o) PR(*c); }
#define ALG(name, expr) X void c_al_##name(void *o, const E *c, const E *e, const E *k) { typedef __typeof__(expr) R; ::new(o) R(expr); }
ALG(find, ttl::find(c, e, *k)) ALG(find_if, ttl::find_if(c, e, P1())) ALG(count, ttl::count(c, e, *k)) ALG(count_if, ttl::count_if(c, e, P1()))
ALG(equal, ttl::equal(c, e, k, k + 3)) ALG(lower, ttl::lower_bound(c, e, *k)) ALG(upper, ttl::upper_bound(c, e, *k)) ALG(bsearch, ttl::binary_search(c, e, *k))
ALG(search, ttl::search(c, e, k, k + 2)) ALG(adjacent, ttl::adjacent_find(c, e)) ALG(sorted, ttl::is_sorted(c, e)) ALG(minel, ttl::min_element(c, e)) ALG(maxel, ttl::max_element(c, e))
ALG(all, ttl::all_of(c, e, P1())) ALG(any, ttl::any_of(c, e, P1())) ALG(none, ttl::none_of(c, e, P1()))
