#include <string>
#include <nestl/shared_ptr.hpp>
#include "arch.hpp"
using namespace arch;
#ifndef ELT
#define ELT EN
#endif
typedef ELT E;
typedef nestl::impl::shared_ptr<E> S;
typedef nestl::impl::weak_ptr<E> W;
struct Pad { long x; };
struct Dv : Pad, E { Dv() noexcept(noexcept(E())) {} };
typedef nestl::impl::shared_ptr<Dv> SD;
struct Nd { E e; nestl::impl::weak_ptr<Nd> self; nestl::impl::shared_ptr<Nd> next; Nd() noexcept(noexcept(E())) {} };
typedef nestl::impl::shared_ptr<Nd> SN;
typedef nestl::impl::weak_ptr<Nd> WN;
typedef Alloc<E> A;
typedef std::size_t Z;
#define D extern "C" void
#define DP extern "C" const void*
#define DL extern "C" long
#define DB extern "C" bool
extern "C" { extern const Z sz_S = sizeof(S); extern const Z sz_W = sizeof(W); extern const Z sz_Err = sizeof(Err); extern const Z sz_E = sizeof(E); extern const Z sz_A = sizeof(Alloc<E>); }
// three strong and five weak references
#define SETUP(name, T, SS, WW) \
D name(SS* p, SS* p2, SS* p3, WW* w, WW* w2, WW* w3, WW* w4, WW* w5, Err* e, A* a) \
{ new (p) SS(nestl::impl::make_shared_a_nothrow<T>(*e, *a)); new (p2) SS(*p); new (p3) SS(*p); new (w) WW(*p); new (w2) WW(*p); new (w3) WW(*p); new (w4) WW(*p); new (w5) WW(*p); }
SETUP(s_setup, E, S, W)
SETUP(d_setup, Dv, SD, nestl::impl::weak_ptr<Dv>)
SETUP(n_setup, Nd, SN, WN)
D s_conv_probe(S* p, SD* o) { new (p) S(*o); }
// creation
D s_make(S* p, Err* e, A* a, const E* x) { new (p) S(nestl::impl::make_shared_a_nothrow<E>(*e, *a, *x)); }
D s_make_arg(S* p, Err* e, A* a, long x) { new (p) S(nestl::impl::make_shared_a_nothrow<E>(*e, *a, x)); }
D s_make_none(S* p, Err* e, A* a) { new (p) S(nestl::impl::make_shared_a_nothrow<E>(*e, *a)); }
D s_make_default_alloc(S* p, Err* e, const E* x) { new (p) S(nestl::impl::make_shared_nothrow<E>(*e, *x)); }
D s_make_over(S* p, Err* e, A* a, const E* x) { *p = nestl::impl::make_shared_a_nothrow<E>(*e, *a, *x); }
// shared
D s_ctor(S* p) { new (p) S(); }
D s_ctor_null(S* p) { new (p) S(nullptr); }
D s_ctor_copy(S* p, const S* o) { new (p) S(*o); }
D s_ctor_conv(S* p, const SD* o) { new (p) S(*o); }
D s_ctor_move(S* p, S* o) { new (p) S(std::move(*o)); }
D s_dtor(S* p) { p->~S(); }
D s_assign(S* p, const S* o) { *p = *o; }
D s_assign_conv(S* p, const SD* o) { *p = *o; }
D s_assign_move(S* p, S* o) { *p = std::move(*o); }
D s_assign_move_conv(S* p, SD* o) { *p = std::move(*o); }
D s_assign_null(S* p) { *p = nullptr; }
D s_reset(S* p) { p->reset(); }
D s_swap(S* p, S* o) { p->swap(*o); }
DP s_get(const S* p) { return p->get(); }
DP s_deref(const S* p) { return &**p; }
DP s_arrow(const S* p) { return p->operator->(); }
DL s_use_count(const S* p) { return p->use_count(); }
DB s_unique(const S* p) { return p->unique(); }
DB s_bool(const S* p) { return static_cast<bool>(*p); }
// weak
D w_ctor(W* w) { new (w) W(); }
D w_ctor_move(W* w, W* o) { new (w) W(std::move(*o)); }
D w_ctor_copy(W* w, const W* o) { new (w) W(*o); }
D w_ctor_shared(W* w, const S* p) { new (w) W(*p); }
D w_dtor(W* w) { w->~W(); }
D w_reset(W* w) { w->reset(); }
D w_assign(W* w, const W* o) { *w = *o; }
D w_assign_move(W* w, W* o) { *w = std::move(*o); }
D w_assign_shared(W* w, const S* p) { *w = *p; }
DB w_expired(const W* w) { return w->expired(); }
DL w_use_count(const W* w) { return w->use_count(); }
D w_lock(W* w, S* p) { new (p) S(w->lock()); }
// an object that refers to itself and to a successor
D n_dtor(SN* p) { p->~SN(); }
D n_reset(SN* p) { p->reset(); }
D n_assign(SN* p, const SN* o) { *p = *o; }
D n_assign_move(SN* p, SN* o) { *p = std::move(*o); }
D n_advance(SN* p) { *p = (*p)->next; }
D n_advance_move(SN* p) { *p = std::move((*p)->next); }
D n_set_self(SN* p) { (*p)->self = *p; }
D n_drop_self(SN* p) { (*p)->self.reset(); }
D n_lock_self(SN* p, SN* o) { new (o) SN((*p)->self.lock()); }
