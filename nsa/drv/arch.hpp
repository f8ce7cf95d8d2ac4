// Archetypes: the least capable types a user may plug into the library.  Every operation on them is an
// opaque external call, so the analysed code can rely on nothing but the documented requirements.
#ifndef NSA_ARCH_HPP
#define NSA_ARCH_HPP
#include <cstddef>
#include <utility>
#include <new>
#include <memory>
#include <functional>
#include <iterator>
#include <limits>
#include <type_traits>
#include <exception>

extern "C" {
// error object: 0 clear, 1 out of memory, 2 length error, 3 exception, 4 element initialisation failed
void  __v_err_set(void* err, long kind) noexcept;
// allocator
void* __v_alloc(void* err, long id, std::size_t n, std::size_t size) noexcept;   // sets err and returns 0 on failure
void* __v_alloc2(long id, std::size_t n, std::size_t size) noexcept;
void  __v_caught(void* err, long kind) noexcept;
void  __v_dealloc(long id, void* p, std::size_t n, std::size_t size) noexcept;
// elements, functions with _t may throw
void  __v_ctor_default(void* self) noexcept;
void  __v_ctor_default_t(void* self);
void  __v_ctor_copy(void* self, const void* other) noexcept;
void  __v_ctor_copy_t(void* self, const void* other);
void  __v_ctor_move(void* self, void* other) noexcept;
void  __v_ctor_move_t(void* self, void* other);
void  __v_assign_move(void* self, void* other) noexcept;
void  __v_assign_move_t(void* self, void* other);
void  __v_ctor_arg(void* self, long arg) noexcept;
void  __v_ctor_arg_t(void* self, long arg);
void  __v_dtor(void* self) noexcept;
void  __v_assign_copy(void* self, const void* other) noexcept;
void  __v_assign_copy_t(void* self, const void* other);
bool  __v_init_copy(void* self, const void* other) noexcept;     // two phase: false on failure
bool  __v_init_arg(void* self, long arg) noexcept;
bool  __v_eq(const void* a, const void* b) noexcept;
bool  __v_less(const void* a, const void* b) noexcept;
bool  __v_pred(const void* a) noexcept;
bool  __v_nondet(void) noexcept;
void  __v_visit(const void* p) noexcept;
}

namespace arch {

struct Err
{
    long st;
    Err() noexcept : st(0) {}
    explicit operator bool() const noexcept { return st != 0; }
};
inline void build_bad_alloc(Err& e) noexcept { __v_err_set(&e, 1); }
inline void build_length_error(Err& e) noexcept { __v_err_set(&e, 2); }
inline void from_exception_ptr(Err& e, const std::exception_ptr&) noexcept { __v_err_set(&e, 3); }

// stateful allocator, propagates on move and copy assignment as declared
template <typename T>
struct Alloc
{
    typedef T value_type;
    typedef std::true_type propagate_on_container_move_assignment;
    typedef std::true_type propagate_on_container_copy_assignment;
    template <typename U> struct rebind { typedef Alloc<U> other; };
    long id;
    Alloc() noexcept : id(0) {}
    explicit Alloc(long i) noexcept : id(i) {}
    Alloc(const Alloc& o) noexcept : id(o.id) {}
    template <typename U> Alloc(const Alloc<U>& o) noexcept : id(o.id) {}
    Alloc& operator=(const Alloc& o) noexcept { id = o.id; return *this; }
    template <typename E>
    T* allocate(E& err, std::size_t n, const void* = 0) noexcept
    {
#ifdef FACADE
        // any error class: the failure is reported through the documented builder
        void* p = __v_alloc2(id, n, sizeof(T));
        if (!p) build_bad_alloc(err);
        return static_cast<T*>(p);
#else
        return static_cast<T*>(__v_alloc(&err, id, n, sizeof(T)));
#endif
    }
    void deallocate(T* p, std::size_t n) noexcept { __v_dealloc(id, p, n, sizeof(T)); }
    bool operator==(const Alloc& o) const noexcept { return id == o.id; }
    bool operator!=(const Alloc& o) const noexcept { return id != o.id; }
};

// nothrow element
struct EN
{
    long pad[3];
    EN() noexcept { __v_ctor_default(this); }
    EN(const EN& o) noexcept { __v_ctor_copy(this, &o); }
    EN(EN&& o) noexcept { __v_ctor_move(this, &o); }
    explicit EN(long a) noexcept { __v_ctor_arg(this, a); }
    ~EN() noexcept { __v_dtor(this); }
    EN& operator=(const EN& o) noexcept { __v_assign_copy(this, &o); return *this; }
};
#if defined(__EXCEPTIONS)
// element whose construction and assignment may throw
struct ET
{
    long pad[3];
    ET() { __v_ctor_default_t(this); }
    ET(const ET& o) { __v_ctor_copy_t(this, &o); }
    explicit ET(long a) { __v_ctor_arg_t(this, a); }
    ~ET() noexcept { __v_dtor(this); }
    ET& operator=(const ET& o) { __v_assign_copy_t(this, &o); return *this; }
};
// element whose moves do not throw, whose copies may
struct EX
{
    long pad[3];
    EX() noexcept { __v_ctor_default(this); }
    EX(const EX& o) { __v_ctor_copy_t(this, &o); }
    EX(EX&& o) noexcept { __v_ctor_move(this, &o); }
    explicit EX(long a) { __v_ctor_arg_t(this, a); }
    ~EX() noexcept { __v_dtor(this); }
    EX& operator=(const EX& o) { __v_assign_copy_t(this, &o); return *this; }
    EX& operator=(EX&& o) noexcept { __v_assign_move(this, &o); return *this; }
};
// the other way round
struct EY
{
    long pad[3];
    EY() { __v_ctor_default_t(this); }
    EY(const EY& o) noexcept { __v_ctor_copy(this, &o); }
    EY(EY&& o) { __v_ctor_move_t(this, &o); }
    explicit EY(long a) noexcept { __v_ctor_arg(this, a); }
    ~EY() noexcept { __v_dtor(this); }
    EY& operator=(const EY& o) noexcept { __v_assign_copy(this, &o); return *this; }
    EY& operator=(EY&& o) { __v_assign_move_t(this, &o); return *this; }
};
#endif
// element which is copied by two-phase initialisation only
struct E2
{
    long pad[3];
    E2() noexcept { __v_ctor_default(this); }
    E2(const E2&) = delete;
    E2& operator=(const E2&) = delete;
    ~E2() noexcept { __v_dtor(this); }
};

#define NSA_OPS(E) \
inline bool operator==(const E& a, const E& b) noexcept { return __v_eq(&a, &b); } \
inline bool operator<(const E& a, const E& b) noexcept { return __v_less(&a, &b); }
NSA_OPS(EN)
NSA_OPS(E2)
#if defined(__EXCEPTIONS)
NSA_OPS(ET)
NSA_OPS(EX)
NSA_OPS(EY)
#endif

struct Less
{
    template <typename A, typename B>
    bool operator()(const A& a, const B& b) const noexcept { return __v_less(&a, &b); }
};
struct Pred
{
    template <typename A>
    bool operator()(const A& a) const noexcept { return __v_pred(&a); }
};
struct Eq
{
    template <typename A, typename B>
    bool operator()(const A& a, const B& b) const noexcept { return __v_eq(&a, &b); }
};

// single pass input iterator over an array of elements
template <typename E>
struct InIt
{
    typedef std::input_iterator_tag iterator_category;
    typedef E value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const E* pointer;
    typedef const E& reference;
    const E* p;
    reference operator*() const noexcept { return *p; }
    InIt& operator++() noexcept { ++p; return *this; }
    InIt operator++(int) noexcept { InIt r = *this; ++p; return r; }
    bool operator==(const InIt& o) const noexcept { return p == o.p; }
    bool operator!=(const InIt& o) const noexcept { return p != o.p; }
};

#ifdef FACADE
// an exception that leaves a throwing operation is written down in an error object
#define TRY(...) try { __VA_ARGS__; } catch (const std::length_error&) { __v_caught(e, 2); } catch (const std::bad_alloc&) { __v_caught(e, 1); } catch (...) { __v_caught(e, 3); }
#endif

} // namespace arch

#include <nestl/class_operations.hpp>
namespace nestl {
template <> struct two_phase_initializator<arch::E2>
{
    template <typename OE>
    static void init(OE& err, arch::E2& self, const arch::E2& other) noexcept
    { if (!__v_init_copy(&self, &other)) __v_err_set(&err, 4); }
    template <typename OE>
    static void init(OE& err, arch::E2& self, long a) noexcept
    { if (!__v_init_arg(&self, a)) __v_err_set(&err, 4); }
};
}
#endif
