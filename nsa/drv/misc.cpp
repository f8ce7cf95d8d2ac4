#include <string>
#include <nestl/allocator.hpp>
#include <nestl/algorithm.hpp>
#include <nestl/class_operations.hpp>
#include <nestl/detail/uninitialised_copy.hpp>
#include <nestl/detail/destroy.hpp>
#include <nestl/no_exceptions/errc_based_error.hpp>
#include <nestl/default_operation_error.hpp>
#if defined(__EXCEPTIONS)
#include <nestl/has_exceptions/exception_ptr_error.hpp>
#endif
#include "arch.hpp"
using namespace arch;
#ifndef ELT
#define ELT EN
#endif
typedef ELT E;
typedef InIt<E> I;
typedef std::size_t Z;
#define D extern "C" void
#define DP extern "C" const void*
#define DB extern "C" bool
#define DL extern "C" long
extern "C" { extern const Z sz_Err = sizeof(Err); extern const Z sz_E = sizeof(E); extern const Z sz_A = sizeof(Alloc<E>); }
// algorithms
#ifndef TWOPHASE
DP a_copy(Err* e, const E* f, const E* l, E* d) { return nestl::copy(*e, f, l, d); }
DP a_copy_in(Err* e, const E* f, const E* l, E* d) { I a = {f}; I b = {l}; return nestl::copy(*e, a, b, d); }
DP a_copy_left(Err* e, E* d, Z p, Z n) { return nestl::copy(*e, d + p, d + n, d); }
DP a_copy_if(Err* e, const E* f, const E* l, E* d) { return nestl::copy_if(*e, f, l, d, Pred()); }
DP a_copy_if_in(Err* e, const E* f, const E* l, E* d) { I a = {f}; I b = {l}; return nestl::copy_if(*e, a, b, d, Pred()); }
#endif
DB a_equal(const E* f, const E* l, const E* g) { return nestl::equal(f, l, g); }
DB a_equal_in(const E* f, const E* l, const E* g) { I a = {f}; I b = {l}; I c = {g}; return nestl::equal(a, b, c); }
DB a_equal_pred(const E* f, const E* l, const E* g) { return nestl::equal(f, l, g, Eq()); }
DB a_lex(const E* f, const E* l, const E* g, const E* m) { return nestl::lexicographical_compare(f, l, g, m); }
DB a_lex_in(const E* f, const E* l, const E* g, const E* m) { I a = {f}; I b = {l}; I c = {g}; I d = {m}; return nestl::lexicographical_compare(a, b, c, d); }
DB a_lex_comp(const E* f, const E* l, const E* g, const E* m) { return nestl::lexicographical_compare(f, l, g, m, Less()); }
// the default allocator
typedef nestl::allocator<E> NA;
struct Other { char x[40]; };
DP n_alloc(Err* e, Z n) { NA a; return a.allocate(*e, n); }
DP n_alloc_traits(Err* e, Z n) { NA a; return nestl::allocator_traits<NA>::allocate(*e, a, n); }
DP n_alloc_rebound(Err* e, Z n) { NA::rebind<Other>::other b; NA a(b); return a.allocate(*e, n, nullptr); }
D n_cycle(Err* e, Z n) { NA a; E* p = a.allocate(*e, n); if (!*e) { NA b(a); b.deallocate(p, n); } }
D n_cycle_traits(Err* e, Z n) { NA a; E* p = nestl::allocator_traits<NA>::allocate(*e, a, n); if (!*e) nestl::allocator_traits<NA>::deallocate(a, p, n); }
// construction and assignment of one object
D c_default(Err* e, E* p) { nestl::class_operations::construct(*e, p); }
D c_copy(Err* e, E* p, const E* x) { nestl::class_operations::construct(*e, p, *x); }
D c_arg(Err* e, E* p, long a) { nestl::class_operations::construct(*e, p, a); }
#ifndef TWOPHASE
D c_assign(Err* e, E* p, const E* x) { nestl::class_operations::assign(*e, *p, *x); }
#endif
#ifdef MOVABLE
D c_move(Err* e, E* p, E* x) { nestl::class_operations::construct(*e, p, std::move(*x)); }
D c_assign_move(Err* e, E* p, E* x) { nestl::class_operations::assign(*e, *p, std::move(*x)); }
#endif
DP u_copy(Err* e, const E* f, const E* l, E* d) { return nestl::detail::uninitialised_copy(*e, f, l, d); }
D u_destroy(E* f, E* l) { nestl::detail::destroy(f, l); }
// error objects
typedef nestl::no_exceptions::errc_based_error EC;
extern "C" { extern const Z sz_EC = sizeof(EC); }
D ec_new(EC* e) { new (e) EC(); }
D ec_val(EC* e, int v) { new (e) EC(v); }
DB ec_bool(int v) { EC e(v); return static_cast<bool>(e); }
DL ec_value(int v) { EC e(v); return e.value(); }
DL ec_alloc(int v) { EC e(v); build_bad_alloc(e); return e.value(); }
DL ec_length(int v) { EC e(v); build_length_error(e); return e.value(); }
DB ec_alloc_bool(int v) { EC e(v); build_bad_alloc(e); return static_cast<bool>(e); }
DB ec_length_bool(int v) { EC e(v); build_length_error(e); return static_cast<bool>(e); }
DB ec_default_bool() { EC e; return static_cast<bool>(e); }
DB ec_copy_bool(int v) { EC e(v); EC f(e); EC g; g = f; return static_cast<bool>(g); }
DB ec_def_default_bool() { nestl::no_exceptions::default_operation_error e; return static_cast<bool>(e); }
DB ec_def_alloc_bool() { nestl::no_exceptions::default_operation_error e; build_bad_alloc(e); return static_cast<bool>(e); }
#if defined(__EXCEPTIONS)
typedef nestl::has_exceptions::exception_ptr_error EP;
typedef nestl::default_operation_error DE;
struct Mine { long k; };
extern "C" void __v_throw_mine();
DB ep_default_bool() { EP e; return static_cast<bool>(e); }
DB ep_alloc_bool() { EP e; build_bad_alloc(e); return static_cast<bool>(e); }
DB ep_length_bool() { EP e; build_length_error(e); return static_cast<bool>(e); }
DB ep_caught_bool() { EP e; try { throw Mine(); } catch (...) { from_exception_ptr(e, std::current_exception()); } return static_cast<bool>(e); }
DB ep_copy_bool() { EP e; build_bad_alloc(e); EP f(e); EP g; g = f; return static_cast<bool>(g); }
DB ep_copy_empty_bool() { EP e; EP f(e); EP g; build_bad_alloc(g); g = f; return static_cast<bool>(g); }
DB ep_value_bool() { EP e; return e.value() != nullptr; }
DB ep_value_set_bool() { EP e; build_length_error(e); EP f(e.value()); return static_cast<bool>(f); }
D ep_alloc_throw() { EP e; build_bad_alloc(e); throw_exception(e); }
D ep_length_throw() { EP e; build_length_error(e); throw_exception(e); }
D ep_caught_throw() { EP e; try { throw Mine(); } catch (...) { from_exception_ptr(e, std::current_exception()); } throw_exception(e); }
D ep_from_throw() { EP e; from_exception(e, Mine()); throw_exception(e); }
D ep_value_throw() { EP e; build_length_error(e); EP f(e.value()); throw_exception(f); }
D ep_over_throw() { EP e; build_bad_alloc(e); build_length_error(e); throw_exception(e); }
DB de_default_bool() { DE e; return static_cast<bool>(e); }
D de_alloc_throw() { DE e; build_bad_alloc(e); throw_exception(e); }
D de_length_throw() { DE e; build_length_error(e); throw_exception(e); }
#endif
