#include <string>
#include <nestl/list.hpp>
#include "arch.hpp"
using namespace arch;
#ifndef ELT
#define ELT EN
#endif
typedef ELT E;
typedef nestl::impl::list<E, Alloc<E> > C;
typedef C::iterator T;
typedef C::const_iterator K;
typedef InIt<E> I;
typedef std::size_t Z;
#define D extern "C" void
#define DP extern "C" const void*
#define DZ extern "C" std::size_t
#define DB extern "C" bool
extern "C" { extern const Z sz_C = sizeof(C); extern const Z sz_Err = sizeof(Err); extern const Z sz_E = sizeof(E); extern const Z sz_A = sizeof(Alloc<E>);
extern const Z sz_T = sizeof(T); extern const Z sz_K = sizeof(K); }
D l_setup(C* l, Err* e, const Alloc<E>* a, const E* x, const E* y, T* it) { new (l) C(*a); l->push_back_nothrow(*e, *x); if (!*e) l->push_back_nothrow(*e, *y); new (it) T(l->begin()); }
D l_ctor(C* l, const Alloc<E>* a) { new (l) C(*a); }
D l_ctor_default(C* l) { new (l) C(); }
D l_ctor_move(C* l, C* o) { new (l) C(std::move(*o)); }
D l_dtor(C* l) { l->~C(); }
D l_get_allocator(C* l, Alloc<E>* out) { new (out) Alloc<E>(static_cast<const C*>(l)->get_allocator()); }
D l_move_assign(C* l, C* o) { *l = std::move(*o); }
D l_swap(C* l, C* o) { l->swap(*o); }
D l_copy(C* l, Err* e, const C* o) { l->copy_nothrow(*e, *o); }
D l_two_phase(C* l, Err* e, const C* o) { nestl::two_phase_initializator<C>::init(*e, *l, *o); }
D l_assign_n(C* l, Err* e, Z n, const E* x) { l->assign_nothrow(*e, n, *x); }
D l_assign_ptr(C* l, Err* e, const E* f, const E* g) { l->assign_nothrow(*e, f, g); }
D l_assign_in(C* l, Err* e, const E* f, const E* g) { I a = {f}; I b = {g}; l->assign_nothrow(*e, a, b); }
DB l_eq(const C* a, const C* b) { return *a == *b; }
DP l_front(C* l) { return &l->front(); }
DP l_front_c(const C* l) { return &l->front(); }
DP l_back(C* l) { return &l->back(); }
DP l_back_c(const C* l) { return &l->back(); }
D l_begin(C* l, T* o) { new (o) T(l->begin()); }
D l_begin_c(const C* l, K* o) { new (o) K(l->begin()); }
D l_cbegin(const C* l, K* o) { new (o) K(l->cbegin()); }
D l_end(C* l, T* o) { new (o) T(l->end()); }
D l_end_c(const C* l, K* o) { new (o) K(l->end()); }
D l_cend(const C* l, K* o) { new (o) K(l->cend()); }
D l_rbegin(C* l, T* o) { new (o) T(l->rbegin().base()); }
D l_rbegin_c(const C* l, K* o) { new (o) K(l->rbegin().base()); }
D l_crbegin(const C* l, K* o) { new (o) K(l->crbegin().base()); }
D l_rend(C* l, T* o) { new (o) T(l->rend().base()); }
D l_rend_c(const C* l, K* o) { new (o) K(l->rend().base()); }
D l_crend(const C* l, K* o) { new (o) K(l->crend().base()); }
DB l_empty(const C* l) { return l->empty(); }
DZ l_size(const C* l) { return l->size(); }
DZ l_max_size(const C* l) { return l->max_size(); }
D l_clear(C* l) { l->clear(); }
// iterators
DP l_it_deref(C*, const T* i) { return &**i; }
DP l_it_arrow(C*, const T* i) { return i->operator->(); }
DP l_cit_deref(C*, const K* i) { return &**i; }
DP l_cit_arrow(C*, const K* i) { return i->operator->(); }
D l_it_inc(C*, T* i, T* o) { new (o) T(++*i); }
D l_it_inc_post(C*, T* i, T* o) { new (o) T((*i)++); }
D l_it_dec(C*, T* i, T* o) { new (o) T(--*i); }
D l_it_dec_post(C*, T* i, T* o) { new (o) T((*i)--); }
D l_cit_inc(C*, K* i, K* o) { new (o) K(++*i); }
D l_cit_inc_post(C*, K* i, K* o) { new (o) K((*i)++); }
D l_cit_dec(C*, K* i, K* o) { new (o) K(--*i); }
D l_cit_dec_post(C*, K* i, K* o) { new (o) K((*i)--); }
D l_cit_conv(C*, const T* i, K* o) { new (o) K(*i); }
DB l_it_eq(C*, const T* i, const T* j) { return *i == *j; }
DB l_it_ne(C*, const T* i, const T* j) { return *i != *j; }
DB l_cit_eq(C*, const K* i, const K* j) { return *i == *j; }
DB l_cit_ne(C*, const K* i, const K* j) { return *i != *j; }
// modifiers
D l_insert(C* l, Err* e, const K* p, const E* x, T* o) { new (o) T(l->insert_nothrow(*e, *p, *x)); }
D l_insert_own(C* l, Err* e, const K* p, const K* q, T* o) { new (o) T(l->insert_nothrow(*e, *p, **q)); }
D l_insert_n(C* l, Err* e, const K* p, Z n, const E* x) { l->insert_nothrow(*e, *p, n, *x); }
D l_insert_ptr(C* l, Err* e, const K* p, const E* f, const E* g) { l->insert_nothrow(*e, *p, f, g); }
D l_insert_in(C* l, Err* e, const K* p, const E* f, const E* g) { I a = {f}; I b = {g}; l->insert_nothrow(*e, *p, a, b); }
D l_emplace(C* l, Err* e, const K* p, long a, T* o) { new (o) T(l->emplace_nothrow(*e, *p, a)); }
D l_emplace_none(C* l, Err* e, const K* p, T* o) { new (o) T(l->emplace_nothrow(*e, *p)); }
D l_erase(C* l, const K* p, T* o) { new (o) T(l->erase(*p)); }
D l_erase_range(C* l, const K* p, const K* q, T* o) { new (o) T(l->erase(*p, *q)); }
D l_push_back(C* l, Err* e, const E* x) { l->push_back_nothrow(*e, *x); }
D l_push_front(C* l, Err* e, const E* x) { l->push_front_nothrow(*e, *x); }
D l_push_back_own(C* l, Err* e, const K* q) { l->push_back_nothrow(*e, **q); }
D l_push_front_own(C* l, Err* e, const K* q) { l->push_front_nothrow(*e, **q); }
D l_emplace_back(C* l, Err* e, long a) { l->emplace_back_nothrow(*e, a); }
D l_emplace_front(C* l, Err* e, long a) { l->emplace_front_nothrow(*e, a); }
D l_emplace_back_none(C* l, Err* e) { l->emplace_back_nothrow(*e); }
D l_emplace_front_none(C* l, Err* e) { l->emplace_front_nothrow(*e); }
D l_pop_back(C* l) { l->pop_back(); }
D l_pop_front(C* l) { l->pop_front(); }
// splice
D l_splice_all(C* l, const K* p, C* o) { l->splice(*p, *o); }
D l_splice_all_r(C* l, const K* p, C* o) { l->splice(*p, std::move(*o)); }
D l_splice_one(C* l, const K* p, C* o, const K* i) { l->splice(*p, *o, *i); }
D l_splice_one_r(C* l, const K* p, C* o, const K* i) { l->splice(*p, std::move(*o), *i); }
D l_splice_range(C* l, const K* p, C* o, const K* i, const K* j) { l->splice(*p, *o, *i, *j); }
D l_splice_range_r(C* l, const K* p, C* o, const K* i, const K* j) { l->splice(*p, std::move(*o), *i, *j); }
D l_splice_own_one(C* l, const K* p, const K* i) { l->splice(*p, *l, *i); }
D l_splice_own_range(C* l, const K* p, const K* i, const K* j) { l->splice(*p, *l, *i, *j); }
// ordering
D l_merge(C* l, C* o) { l->merge(*o); }
D l_merge_r(C* l, C* o) { l->merge(std::move(*o)); }
D l_merge_comp(C* l, C* o) { l->merge(*o, Less()); }
D l_merge_comp_r(C* l, C* o) { l->merge(std::move(*o), Less()); }
D l_sort(C* l) { l->sort(); }
D l_sort_comp(C* l) { l->sort(Less()); }
#ifdef MOVABLE
D l_insert_move(C* l, Err* e, const K* p, E* x, T* o) { new (o) T(l->insert_nothrow(*e, *p, std::move(*x))); }
D l_push_back_move(C* l, Err* e, E* x) { l->push_back_nothrow(*e, std::move(*x)); }
D l_push_front_move(C* l, Err* e, E* x) { l->push_front_nothrow(*e, std::move(*x)); }
#endif
