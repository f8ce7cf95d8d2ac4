#include <string>
#include <nestl/vector.hpp>
#include "arch.hpp"
using namespace arch;
#ifndef ELT
#define ELT EN
#endif
typedef ELT E;
typedef nestl::impl::vector<E, Alloc<E> > V;
typedef InIt<E> I;
typedef std::size_t Z;
#define D extern "C" void
#define DP extern "C" const void*
#define DZ extern "C" std::size_t
#define DB extern "C" bool
extern "C" { extern const Z sz_V = sizeof(V); extern const Z sz_Err = sizeof(Err); extern const Z sz_E = sizeof(E); extern const Z sz_A = sizeof(Alloc<E>); }
// construction and destruction
D v_ctor(V* v, const Alloc<E>* a) { new (v) V(*a); }
D v_ctor_default(V* v) { new (v) V(); }
D v_ctor_move(V* v, V* o) { new (v) V(std::move(*o)); }
D v_dtor(V* v) { v->~V(); }
D v_get_allocator(V* v, Alloc<E>* out) { new (out) Alloc<E>(static_cast<const V*>(v)->get_allocator()); }
D v_setup(V* v, Err* e, const Alloc<E>* a, Z n, const E* x) { new (v) V(*a); v->reserve_nothrow(*e, n); if (!*e) v->push_back_nothrow(*e, *x); }
// whole container
D v_move_assign(V* v, V* o) { *v = std::move(*o); }
D v_swap(V* v, V* o) { v->swap(*o); }
D v_copy(V* v, Err* e, const V* o) { v->copy_nothrow(*e, *o); }
D v_two_phase(V* v, Err* e, const V* o) { nestl::two_phase_initializator<V>::init(*e, *v, *o); }
D v_assign_n(V* v, Err* e, Z n, const E* x) { v->assign_nothrow(*e, n, *x); }
D v_assign_ptr(V* v, Err* e, const E* f, const E* l) { v->assign_nothrow(*e, f, l); }
D v_assign_in(V* v, Err* e, const E* f, const E* l) { I a = {f}; I b = {l}; v->assign_nothrow(*e, a, b); }
DB v_eq(const V* a, const V* b) { return *a == *b; }
// access
DP v_index(V* v, Z i) { return &(*v)[i]; }
DP v_index_c(const V* v, Z i) { return &(*v)[i]; }
DP v_front(V* v) { return &v->front(); }
DP v_front_c(const V* v) { return &v->front(); }
DP v_back(V* v) { return &v->back(); }
DP v_back_c(const V* v) { return &v->back(); }
DP v_data(V* v) { return v->data(); }
DP v_data_c(const V* v) { return v->data(); }
DP v_begin(V* v) { return v->begin(); }
DP v_begin_c(const V* v) { return v->begin(); }
DP v_cbegin(const V* v) { return v->cbegin(); }
DP v_end(V* v) { return v->end(); }
DP v_end_c(const V* v) { return v->end(); }
DP v_cend(const V* v) { return v->cend(); }
DP v_rbegin(V* v) { return v->rbegin().base(); }
DP v_rbegin_c(const V* v) { return v->rbegin().base(); }
DP v_crbegin(const V* v) { return v->crbegin().base(); }
DP v_rend(V* v) { return v->rend().base(); }
DP v_rend_c(const V* v) { return v->rend().base(); }
DP v_crend(const V* v) { return v->crend().base(); }
DB v_empty(const V* v) { return v->empty(); }
DZ v_size(const V* v) { return v->size(); }
DZ v_capacity(const V* v) { return v->capacity(); }
DZ v_max_size(const V* v) { return v->max_size(); }
// modifiers
D v_reserve(V* v, Err* e, Z n) { v->reserve_nothrow(*e, n); }
D v_shrink(V* v, Err* e) { v->shrink_to_fit_nothrow(*e); }
D v_clear(V* v) { v->clear(); }
DP v_insert(V* v, Err* e, Z p, const E* x) { return v->insert_nothrow(*e, v->cbegin() + p, *x); }
DP v_insert_own(V* v, Err* e, Z p, Z q) { return v->insert_nothrow(*e, v->cbegin() + p, (*static_cast<const V*>(v))[q]); }
D v_push_own(V* v, Err* e, Z q) { v->push_back_nothrow(*e, (*static_cast<const V*>(v))[q]); }
D v_insert_range(V* v, Err* e, Z p, const E* f, const E* l) { v->insert_nothrow(*e, v->cbegin() + p, f, l); }
D v_insert_range_in(V* v, Err* e, Z p, const E* f, const E* l) { I a = {f}; I b = {l}; v->insert_nothrow(*e, v->cbegin() + p, a, b); }
D v_push_back(V* v, Err* e, const E* x) { v->push_back_nothrow(*e, *x); }
D v_emplace_back_arg(V* v, Err* e, long a) { v->emplace_back_nothrow(*e, a); }
D v_emplace_back_none(V* v, Err* e) { v->emplace_back_nothrow(*e); }
D v_resize(V* v, Err* e, Z n) { v->resize_nothrow(*e, n); }
D v_resize_val(V* v, Err* e, Z n, const E* x) { v->resize_nothrow(*e, n, *x); }
D v_assign_own(V* v, Err* e, Z n, Z q) { v->assign_nothrow(*e, n, (*static_cast<const V*>(v))[q]); }
D v_assign_part(V* v, Err* e, Z p, Z q) { v->assign_nothrow(*e, v->cbegin() + p, v->cbegin() + q); }
D v_resize_own(V* v, Err* e, Z n, Z q) { v->resize_nothrow(*e, n, (*static_cast<const V*>(v))[q]); }
#ifdef MOVABLE
DP v_insert_move(V* v, Err* e, Z p, E* x) { return v->insert_nothrow(*e, v->cbegin() + p, std::move(*x)); }
D v_push_back_move(V* v, Err* e, E* x) { v->push_back_nothrow(*e, std::move(*x)); }
#endif
