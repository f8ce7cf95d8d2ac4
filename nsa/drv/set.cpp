#include <string>
#include <nestl/set.hpp>
#include "arch.hpp"
using namespace arch;
#ifndef ELT
#define ELT EN
#endif
typedef ELT E;
extern "C" bool __v_less2(long id, const void* a, const void* b) noexcept;
// stateful order
struct Cmp
{
    long id;
    Cmp() noexcept : id(0) {}
    explicit Cmp(long i) noexcept : id(i) {}
    Cmp(const Cmp& o) noexcept : id(o.id) {}
    Cmp& operator=(const Cmp& o) noexcept { id = o.id; return *this; }
    bool operator()(const E& a, const E& b) const noexcept { return __v_less2(id, &a, &b); }
};
typedef nestl::impl::set<E, Cmp, Alloc<E> > C;
typedef C::const_iterator K;
typedef C::const_reverse_iterator R;
typedef C::iterator_with_flag F;
typedef std::size_t Z;
#define D extern "C" void
#define DP extern "C" const void*
#define DZ extern "C" std::size_t
#define DB extern "C" bool
extern "C" { extern const Z sz_C = sizeof(C); extern const Z sz_Err = sizeof(Err); extern const Z sz_E = sizeof(E); extern const Z sz_A = sizeof(Alloc<E>);
extern const Z sz_K = sizeof(K); extern const Z sz_T = sizeof(K); extern const Z sz_R = sizeof(R); extern const Z sz_Cmp = sizeof(Cmp); }
D t_setup(C* l, Err* e, const Cmp* c, const Alloc<E>* a, const E* x, const E* y, const E* z, K* it)
{ new (l) C(*c, *a); l->insert_nothrow(*e, *y); if (!*e) l->insert_nothrow(*e, *x); if (!*e) l->insert_nothrow(*e, *z); new (it) K(static_cast<const C*>(l)->begin()); }
D t_ctor(C* l, const Cmp* c, const Alloc<E>* a) { new (l) C(*c, *a); }
D t_ctor_alloc(C* l, const Alloc<E>* a) { new (l) C(*a); }
D t_ctor_default(C* l) { new (l) C(); }
D t_ctor_move(C* l, C* o) { new (l) C(std::move(*o)); }
D t_dtor(C* l) { l->~C(); }
D t_get_allocator(C* l, Alloc<E>* out) { new (out) Alloc<E>(static_cast<const C*>(l)->get_allocator()); }
D t_move_assign(C* l, C* o) { *l = std::move(*o); }
D t_copy(C* l, Err* e, const C* o) { l->copy_nothrow(*e, *o); }
D t_begin(C* l, K* o) { new (o) K(l->begin()); }
D t_begin_c(const C* l, K* o) { new (o) K(l->begin()); }
D t_cbegin(const C* l, K* o) { new (o) K(l->cbegin()); }
D t_end(C* l, K* o) { new (o) K(l->end()); }
D t_end_c(const C* l, K* o) { new (o) K(l->end()); }
D t_cend(const C* l, K* o) { new (o) K(l->cend()); }
D t_rbegin(C* l, K* o) { new (o) K(l->rbegin().base()); }
D t_rbegin_c(const C* l, K* o) { new (o) K(l->rbegin().base()); }
D t_crbegin(const C* l, K* o) { new (o) K(l->crbegin().base()); }
D t_rend(C* l, K* o) { new (o) K(l->rend().base()); }
D t_rend_c(const C* l, K* o) { new (o) K(l->rend().base()); }
D t_crend(const C* l, K* o) { new (o) K(l->crend().base()); }
DB t_empty(const C* l) { return l->empty(); }
DZ t_size(const C* l) { return l->size(); }
DZ t_max_size(const C* l) { return l->max_size(); }
D t_clear(C* l) { l->clear(); }
DB t_insert(C* l, Err* e, const E* x, K* out) { F r = l->insert_nothrow(*e, *x); new (out) K(r.first); return r.second; }
DB t_insert_own(C* l, Err* e, const E* x, K* out) { F r = l->insert_nothrow(*e, *x); new (out) K(r.first); return r.second; }
#ifdef MOVABLE
DB t_insert_move(C* l, Err* e, E* x, K* out) { F r = l->insert_nothrow(*e, std::move(*x)); new (out) K(r.first); return r.second; }
#endif
D t_erase(C* l, const K* p, K* out) { new (out) K(l->erase(*p)); }
DZ t_erase_key(C* l, const E* x) { return l->erase(*x); }
DZ t_erase_own(C* l, const E* x) { return l->erase(*x); }
D t_find(C* l, const E* x, K* out) { new (out) K(l->find(*x)); }
D t_find_c(const C* l, const E* x, K* out) { new (out) K(l->find(*x)); }
// iterators
DP t_deref(const K* p) { return &**p; }
DP t_arrow(const K* p) { return p->operator->(); }
D t_inc(const C*, K* p, K* out) { new (out) K(++*p); }
D t_inc_post(const C*, K* p, K* out) { new (out) K((*p)++); }
D t_dec(const C*, K* p, K* out) { new (out) K(--*p); }
D t_dec_post(const C*, K* p, K* out) { new (out) K((*p)--); }
DB t_it_eq(const C*, const K* p, const K* q) { return *p == *q; }
DB t_it_ne(const C*, const K* p, const K* q) { return *p != *q; }
DP t_rderef(const C*, const K* p) { R r(*p); return &*r; }
D t_rinc(const C*, const K* p, K* out) { R r(*p); ++r; new (out) K(r.base()); }
