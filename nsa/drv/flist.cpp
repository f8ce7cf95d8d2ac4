#include <string>
#include <stdexcept>
#include <nestl/list.hpp>
#define FACADE 1
#include "arch.hpp"
using namespace arch;
#ifndef ELT
#define ELT EN
#endif
typedef ELT E;
typedef nestl::list<E, Alloc<E> > C;
typedef C::iterator T;
typedef C::const_iterator K;
typedef InIt<E> I;
typedef std::size_t Z;
#define D extern "C" void
#define DP extern "C" const void*
#define DZ extern "C" std::size_t
#define DB extern "C" bool
extern "C" { extern const Z sz_C = sizeof(C); extern const Z sz_Err = sizeof(Err); extern const Z sz_E = sizeof(E); extern const Z sz_A = sizeof(Alloc<E>);
extern const Z sz_T = sizeof(T); extern const Z sz_K = sizeof(K); }
D l_setup(C* l, Err* e, const Alloc<E>* a, const E* x, const E* y, T* it) { new (l) C(*a); l->push_back_nothrow(*e, *x); if (!*e) l->push_back_nothrow(*e, *y); new (it) T(l->begin()); }
D l_ctor(C* l, const Alloc<E>* a) { new (l) C(*a); }
D l_ctor_default(C* l) { new (l) C(); }
D l_ctor_move(C* l, C* o) { new (l) C(std::move(*o)); }
D l_dtor(C* l) { l->~C(); }
D l_move_assign(C* l, C* o) { *l = std::move(*o); }
DP l_front(C* l) { return &l->front(); }
DP l_back(C* l) { return &l->back(); }
D l_begin(C* l, T* o) { new (o) T(l->begin()); }
D l_cbegin(const C* l, K* o) { new (o) K(l->cbegin()); }
D l_end(C* l, T* o) { new (o) T(l->end()); }
D l_cend(const C* l, K* o) { new (o) K(l->cend()); }
D l_rbegin(C* l, T* o) { new (o) T(l->rbegin().base()); }
D l_crbegin(const C* l, K* o) { new (o) K(l->crbegin().base()); }
D l_rend(C* l, T* o) { new (o) T(l->rend().base()); }
D l_crend(const C* l, K* o) { new (o) K(l->crend().base()); }
DB l_empty(const C* l) { return l->empty(); }
DZ l_size(const C* l) { return l->size(); }
DZ l_max_size(const C* l) { return l->max_size(); }
D l_clear(C* l) { l->clear(); }
D l_erase(C* l, const K* p, T* o) { new (o) T(l->erase(*p)); }
D l_pop_back(C* l) { l->pop_back(); }
D l_pop_front(C* l) { l->pop_front(); }
D l_splice_all(C* l, const K* p, C* o) { l->splice(*p, *o); }
D l_splice_all_r(C* l, const K* p, C* o) { l->splice(*p, std::move(*o)); }
D l_splice_one(C* l, const K* p, C* o, const K* i) { l->splice(*p, *o, *i); }
D l_splice_one_r(C* l, const K* p, C* o, const K* i) { l->splice(*p, std::move(*o), *i); }
D l_splice_range(C* l, const K* p, C* o, const K* i, const K* j) { l->splice(*p, *o, *i, *j); }
D l_splice_range_r(C* l, const K* p, C* o, const K* i, const K* j) { l->splice(*p, std::move(*o), *i, *j); }
D l_merge(C* l, C* o) { l->merge(*o); }
D l_merge_r(C* l, C* o) { l->merge(std::move(*o)); }
D l_merge_comp(C* l, C* o) { l->merge(*o, Less()); }
D l_merge_comp_r(C* l, C* o) { l->merge(std::move(*o), Less()); }
D l_sort(C* l) { l->sort(); }
D l_sort_comp(C* l) { l->sort(Less()); }
D l_ctor_copy(C* l, Err* e, const C* o) { TRY(new (l) C(*o)) }
D l_copy_assign(C* l, Err* e, const C* o) { TRY(*l = *o) }
D l_copy_assign_self(C* l, Err* e) { TRY(*l = *l) }
D l_push_back(C* l, Err* e, const E* x) { TRY(l->push_back(*x)) }
#ifdef MOVABLE
D l_push_back_move(C* l, Err* e, E* x) { TRY(l->push_back(std::move(*x))) }
#endif
