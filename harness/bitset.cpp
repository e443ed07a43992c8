// entry points over ttl::bitset; every template parameter that matters is instantiated below
#include "ttl/bitset.hpp"
typedef __SIZE_TYPE__ size_type;
inline void *operator new(size_type, void *p) noexcept { return p; }
#define X extern "C"
#define CTOR(call) ::new (static_cast<void *>(o)) B call
#define DEF(N) \
namespace n##N { typedef ttl::bitset<N> B; \
X void b##N##_ctor(B *o) { CTOR(()); } \
X void b##N##_copy(B *o, const B *a) { CTOR((*a)); } \
X void b##N##_ul(B *o, unsigned long v) { CTOR((v)); } \
X void b##N##_ull(B *o, unsigned long long v) { CTOR((v)); } \
X void b##N##_str(B *o, const char *s, size_type n) { CTOR((s, n)); } \
X void b##N##_strz(B *o, const char *s) { CTOR((s)); } \
X void b##N##_strc(B *o, const char *s, size_type n, char z, char e) { CTOR((s, n, z, e)); } \
X void b##N##_asg(B *a, const B *b) { *a = *b; } \
X bool b##N##_eq(const B *a, const B *b) { return *a == *b; } \
X bool b##N##_ne(const B *a, const B *b) { return *a != *b; } \
X bool b##N##_at(const B *a, size_type p) { return (*a)[p]; } \
X bool b##N##_test(const B *a, size_type p) { return a->test(p); } \
X bool b##N##_rbool(B *a, size_type p) { return (*a)[p]; } \
X bool b##N##_rnot(B *a, size_type p) { return ~(*a)[p]; } \
X void b##N##_rset(B *a, size_type p, bool v) { (*a)[p] = v; } \
X void b##N##_rflip(B *a, size_type p) { (*a)[p].flip(); } \
X void b##N##_rasg(B *a, size_type p, B *b, size_type q) { (*a)[p] = (*b)[q]; } \
X void b##N##_rown(B *a, size_type p, size_type q) { (*a)[p] = (*a)[q]; } \
X bool b##N##_all(const B *a) { return a->all(); } \
X bool b##N##_any(const B *a) { return a->any(); } \
X bool b##N##_none(const B *a) { return a->none(); } \
X size_type b##N##_count(const B *a) { return a->count(); } \
X size_type b##N##_size(const B *a) { return a->size(); } \
X void b##N##_iand(B *a, const B *b) { *a &= *b; } \
X void b##N##_ior(B *a, const B *b) { *a |= *b; } \
X void b##N##_ixor(B *a, const B *b) { *a ^= *b; } \
X void b##N##_and(B *o, const B *a, const B *b) { CTOR((*a & *b)); } \
X void b##N##_or(B *o, const B *a, const B *b) { CTOR((*a | *b)); } \
X void b##N##_xor(B *o, const B *a, const B *b) { CTOR((*a ^ *b)); } \
X void b##N##_not(B *o, const B *a) { CTOR((~*a)); } \
X void b##N##_shl(B *o, const B *a, size_type n) { CTOR((*a << n)); } \
X void b##N##_shr(B *o, const B *a, size_type n) { CTOR((*a >> n)); } \
X void b##N##_ishl(B *a, size_type n) { *a <<= n; } \
X void b##N##_ishr(B *a, size_type n) { *a >>= n; } \
X void b##N##_set(B *a) { a->set(); } \
X void b##N##_setp(B *a, size_type p) { a->set(p); } \
X void b##N##_setv(B *a, size_type p, bool v) { a->set(p, v); } \
X void b##N##_reset(B *a) { a->reset(); } \
X void b##N##_resetp(B *a, size_type p) { a->reset(p); } \
X void b##N##_flip(B *a) { a->flip(); } \
X void b##N##_flipp(B *a, size_type p) { a->flip(p); } \
X unsigned long b##N##_tul(const B *a) { return a->to_ulong(); } \
X unsigned long long b##N##_tull(const B *a) { return a->to_ullong(); } \
X const size_type b##N##_bytes = sizeof(B); \
}
#define DEF2(N, M) \
namespace n##N##_##M { typedef ttl::bitset<N> B; typedef ttl::bitset<M> C; \
X void b##N##_from##M(B *o, const C *c) { CTOR((*c)); } \
X void b##N##_asg##M(B *a, const C *c) { *a = *c; } \
X void b##N##_conv##M(B *o, const C *c) { CTOR((c->operator B())); } \
}
#define EQ0(N) namespace e##N { typedef ttl::bitset<N> B; typedef ttl::bitset<0> Z; \
X bool b##N##_eq0(const B *a, const Z *b) { return *a == *b; } \
X bool b##N##_ne0(const B *a, const Z *b) { return *a != *b; } \
X bool b##N##_0eq(const Z *a, const B *b) { return *a == *b; } \
X bool b##N##_0ne(const Z *a, const B *b) { return *a != *b; } }
DEF(0) DEF(1) DEF(7) DEF(31) DEF(32) DEF(33) DEF(63) DEF(64) DEF(65) DEF(100) DEF(127) DEF(128) DEF(129) DEF(200) DEF(300)
DEF2(1, 7) DEF2(7, 1) DEF2(0, 7) DEF2(7, 0) DEF2(64, 0) DEF2(128, 0) DEF2(0, 65)
DEF2(16, 64) DEF2(64, 16) DEF2(64, 32) DEF2(64, 65) DEF2(65, 64) DEF2(65, 63) DEF2(100, 65) DEF2(65, 100) DEF2(128, 64) DEF2(64, 128)
DEF2(128, 100) DEF2(100, 128) DEF2(200, 65) DEF2(65, 200) DEF2(129, 128) DEF2(128, 129) DEF2(200, 1) DEF2(32, 33) DEF2(33, 32) DEF2(63, 31)
EQ0(1) EQ0(7) EQ0(65)
