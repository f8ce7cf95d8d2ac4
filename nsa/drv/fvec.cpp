#include <string>
#include <stdexcept>
#include <nestl/vector.hpp>
#define FACADE 1
#include "arch.hpp"
using namespace arch;
#ifndef ELT
#define ELT EN
#endif
typedef ELT E;
typedef nestl::vector<E, Alloc<E> > V;
typedef V::as_noexcept_type B;
typedef InIt<E> I;
typedef std::size_t Z;
#define D extern "C" void
#define DP extern "C" const void*
#define DZ extern "C" std::size_t
#define DB extern "C" bool
extern "C" { extern const Z sz_V = sizeof(V); extern const Z sz_Err = sizeof(Err); extern const Z sz_E = sizeof(E); extern const Z sz_A = sizeof(Alloc<E>); }
D v_setup(V* v, Err* e, const Alloc<E>* a, Z n, const E* x) { new (v) V(*a); v->reserve_nothrow(*e, n); if (!*e) v->push_back_nothrow(*e, *x); }
D v_ctor(V* v, const Alloc<E>* a) { new (v) V(*a); }
D v_ctor_default(V* v) { new (v) V(); }
D v_ctor_move(V* v, V* o) { new (v) V(std::move(*o)); }
D v_ctor_move_nx(V* v, V* o) { new (v) V(std::move(o->as_noexcept())); }
D v_ctor_copy(V* v, Err* e, const V* o) { TRY(new (v) V(*o)) }
D v_ctor_copy_nx(V* v, Err* e, const V* o) { TRY(new (v) V(o->as_noexcept())) }
D v_dtor(V* v) { v->~V(); }
D v_move_assign(V* v, V* o) { *v = std::move(*o); }
D v_move_assign_nx(V* v, V* o) { *v = std::move(o->as_noexcept()); }
D v_copy_assign(V* v, Err* e, const V* o) { TRY(*v = *o) }
D v_copy_assign_nx(V* v, Err* e, const V* o) { TRY(*v = o->as_noexcept()) }
D v_copy_assign_self(V* v, Err* e) { TRY(*v = *v) }
D v_push_back(V* v, Err* e, const E* x) { TRY(v->push_back(*x)) }
#ifdef MOVABLE
D v_push_back_move(V* v, Err* e, E* x) { TRY(v->push_back(std::move(*x))) }
#endif
DP v_begin(V* v) { return v->begin(); }
DP v_end(V* v) { return v->end(); }
DP v_cbegin(const V* v) { return v->cbegin(); }
DP v_cend(const V* v) { return v->cend(); }
DP v_begin_c(const V* v) { return v->begin(); }
DP v_end_c(const V* v) { return v->end(); }
DP v_rbegin(V* v) { return v->rbegin().base(); }
DP v_rend(V* v) { return v->rend().base(); }
DP v_crbegin(const V* v) { return v->crbegin().base(); }
DP v_crend(const V* v) { return v->crend().base(); }
DP v_front(V* v) { return &v->front(); }
DP v_back(V* v) { return &v->back(); }
DP v_index(V* v, Z i) { return &(*v)[i]; }
DZ v_size(const V* v) { return v->size(); }
DZ v_capacity(const V* v) { return v->capacity(); }
DB v_empty(const V* v) { return v->empty(); }
D v_clear(V* v) { v->clear(); }
D v_reserve(V* v, Err* e, Z n) { v->reserve_nothrow(*e, n); }
D v_shrink(V* v, Err* e) { v->shrink_to_fit_nothrow(*e); }
D v_resize(V* v, Err* e, Z n) { v->resize_nothrow(*e, n); }
