// type-level witnesses: the translation unit compiles exactly when the promises about types hold
#include <string>
#include <cerrno>
#include <nestl/vector.hpp>
#include <nestl/list.hpp>
#include <nestl/set.hpp>
#include <nestl/shared_ptr.hpp>
#include <nestl/string.hpp>
#include <nestl/algorithm.hpp>
#include <nestl/allocator.hpp>
#include <nestl/alignment.hpp>
#include <nestl/class_operations.hpp>
#include <nestl/default_operation_error.hpp>
#include <utility>
#include <exception>
#include <type_traits>
#include <functional>

#define W(what, ...) static_assert(__VA_ARGS__, what)
#define NX(what, T, expr) static_assert(noexcept(expr), what)
template <typename T> T& lv() noexcept;
template <typename T> const T& cv() noexcept;
template <typename T> T&& rv() noexcept;

struct Err { explicit operator bool() const noexcept; };
void build_bad_alloc(Err&) noexcept;
void build_length_error(Err&) noexcept;
void from_exception_ptr(Err&, const std::exception_ptr&) noexcept;

// a type whose special members may throw, and one whose members do not
struct Thr { Thr(); Thr(const Thr&); explicit Thr(long); Thr& operator=(const Thr&); ~Thr(); bool operator==(const Thr&) const; bool operator<(const Thr&) const; };
struct Not { Not() noexcept; Not(const Not&) noexcept; Not(Not&&) noexcept; explicit Not(long) noexcept; Not& operator=(const Not&) noexcept; ~Not(); bool operator==(const Not&) const; bool operator<(const Not&) const; };
struct Two { Two() noexcept; Two(const Two&) = delete; Two& operator=(const Two&) = delete; ~Two(); bool operator<(const Two&) const; };
struct alignas(64) Big { char c[65]; };
struct Base { virtual ~Base(); int b; };
struct Der : Not, Base { };
namespace nestl { template <> struct two_phase_initializator<Two> {
    template <typename OE> static void init(OE&, Two&, const Two&) noexcept;
    template <typename OE> static void init(OE&, Two&, int) noexcept; }; }

#if defined(__EXCEPTIONS)
#define EXC 1
typedef Thr El;
#else
#define EXC 0
typedef Not El;
#endif

// which face of the library is chosen
W("exception support is detected", nestl::exception_support_t::value == static_cast<bool>(EXC));
#if EXC
W("vector throws when exceptions are enabled", std::is_same<nestl::vector<El>, nestl::has_exceptions::vector<El> >::value);
W("list throws when exceptions are enabled", std::is_same<nestl::list<El>, nestl::has_exceptions::list<El> >::value);
W("default error keeps an exception", std::is_same<nestl::default_operation_error, nestl::has_exceptions::exception_ptr_error>::value);
W("throwing vector can be copied", std::is_copy_constructible<nestl::vector<El> >::value && std::is_copy_assignable<nestl::vector<El> >::value);
W("throwing list can be copied", std::is_copy_constructible<nestl::list<El> >::value && std::is_copy_assignable<nestl::list<El> >::value);
W("throwing vector copy may throw", !std::is_nothrow_copy_constructible<nestl::vector<El> >::value && !std::is_nothrow_copy_assignable<nestl::vector<El> >::value);
W("throwing list copy may throw", !std::is_nothrow_copy_constructible<nestl::list<El> >::value && !std::is_nothrow_copy_assignable<nestl::list<El> >::value);
W("throwing push_back may throw", !noexcept(lv<nestl::vector<El> >().push_back(cv<El>())) && !noexcept(lv<nestl::list<El> >().push_back(cv<El>())));
W("moves of the throwing face do not throw", std::is_nothrow_constructible<nestl::vector<El>, nestl::vector<El>&&>::value && std::is_nothrow_move_assignable<nestl::vector<El> >::value);
W("moves of the throwing face do not throw", std::is_nothrow_constructible<nestl::list<El>, nestl::list<El>&&>::value && std::is_nothrow_move_assignable<nestl::list<El> >::value);
W("non-throwing view of a vector", std::is_same<nestl::vector<El>::as_noexcept_type, nestl::impl::vector<El> >::value);
W("non-throwing view", noexcept(lv<nestl::vector<El> >().as_noexcept()) && std::is_same<decltype(cv<nestl::vector<El> >().as_noexcept()), const nestl::impl::vector<El>&>::value);
#else
W("vector does not throw when exceptions are disabled", std::is_same<nestl::vector<El>, nestl::impl::vector<El> >::value);
W("list does not throw when exceptions are disabled", std::is_same<nestl::list<El>, nestl::impl::list<El> >::value);
W("default error is a code", std::is_same<nestl::default_operation_error, nestl::no_exceptions::errc_based_error>::value);
#endif
W("set is the same in both configurations", std::is_same<nestl::set<El>, nestl::impl::set<El> >::value);
W("shared_ptr is the same in both configurations", std::is_same<nestl::shared_ptr<El>, nestl::impl::shared_ptr<El> >::value);
W("weak_ptr is the same in both configurations", std::is_same<nestl::weak_ptr<El>, nestl::impl::weak_ptr<El> >::value);
W("default allocator", std::is_same<nestl::impl::vector<El>::allocator_type, nestl::allocator<El> >::value && std::is_same<nestl::impl::list<El>::allocator_type, nestl::allocator<El> >::value);

// vector
typedef nestl::impl::vector<El> V;
W("non-throwing vector is not implicitly copied", !std::is_copy_constructible<V>::value && !std::is_copy_assignable<V>::value);
W("vector moves without throwing", std::is_nothrow_constructible<V, V&&>::value && std::is_nothrow_move_assignable<V>::value);
W("vector construction does not throw", std::is_nothrow_constructible<V, const V::allocator_type&>::value && std::is_nothrow_default_constructible<V>::value);
W("vector does not convert from an allocator", !std::is_convertible<V::allocator_type, V>::value);
W("const vector hands out const elements", std::is_same<decltype(cv<V>()[0]), const El&>::value && std::is_same<decltype(lv<V>()[0]), El&>::value);
W("const vector hands out const elements", std::is_same<decltype(cv<V>().front()), const El&>::value && std::is_same<decltype(cv<V>().back()), const El&>::value);
W("const vector hands out const elements", std::is_same<decltype(*cv<V>().begin()), const El&>::value && std::is_same<decltype(*cv<V>().end()), const El&>::value);
W("const vector hands out const elements", std::is_same<decltype(*lv<V>().cbegin()), const El&>::value && std::is_same<decltype(*lv<V>().cend()), const El&>::value);
W("const vector hands out const elements", std::is_same<decltype(*cv<V>().rbegin()), const El&>::value && std::is_same<decltype(*lv<V>().crbegin()), const El&>::value && std::is_same<decltype(*lv<V>().crend()), const El&>::value);
W("vector hands out elements", std::is_same<decltype(lv<V>().front()), El&>::value && std::is_same<decltype(lv<V>().back()), El&>::value && std::is_same<decltype(*lv<V>().begin()), El&>::value && std::is_same<decltype(*lv<V>().rbegin()), El&>::value);
W("const vector hands out const data", std::is_same<decltype(cv<V>().data()), const El*>::value && std::is_same<decltype(lv<V>().data()), El*>::value);
W("vector iterators are random access", std::is_same<std::iterator_traits<V::iterator>::iterator_category, std::random_access_iterator_tag>::value);
W("sizes are unsigned", std::is_unsigned<decltype(cv<V>().size())>::value && std::is_unsigned<decltype(cv<V>().capacity())>::value && std::is_unsigned<decltype(cv<V>().max_size())>::value);
NX("vector access", V, lv<V>()[0]); NX("vector access", V, cv<V>()[0]); NX("vector access", V, lv<V>().front()); NX("vector access", V, lv<V>().back()); NX("vector access", V, lv<V>().data());
NX("vector access", V, cv<V>().front()); NX("vector access", V, cv<V>().back()); NX("vector access", V, cv<V>().data()); NX("vector access", V, cv<V>().get_allocator());
NX("vector iteration", V, lv<V>().begin()); NX("vector iteration", V, lv<V>().end()); NX("vector iteration", V, cv<V>().begin()); NX("vector iteration", V, cv<V>().end()); NX("vector iteration", V, cv<V>().cbegin()); NX("vector iteration", V, cv<V>().cend());
NX("vector iteration", V, lv<V>().rbegin()); NX("vector iteration", V, lv<V>().rend()); NX("vector iteration", V, cv<V>().rbegin()); NX("vector iteration", V, cv<V>().rend()); NX("vector iteration", V, cv<V>().crbegin()); NX("vector iteration", V, cv<V>().crend());
NX("vector size", V, cv<V>().empty()); NX("vector size", V, cv<V>().size()); NX("vector size", V, cv<V>().max_size()); NX("vector size", V, cv<V>().capacity());
NX("vector modification", V, lv<V>().reserve_nothrow(lv<Err>(), 1)); NX("vector modification", V, lv<V>().shrink_to_fit_nothrow(lv<Err>())); NX("vector modification", V, lv<V>().clear());
NX("vector modification", V, lv<V>().insert_nothrow(lv<Err>(), cv<V>().begin(), cv<El>())); NX("vector modification", V, lv<V>().insert_nothrow(lv<Err>(), cv<V>().begin(), cv<El*>(), cv<El*>()));
NX("vector modification", V, lv<V>().push_back_nothrow(lv<Err>(), cv<El>())); NX("vector modification", V, lv<V>().emplace_back_nothrow(lv<Err>(), 1L)); NX("vector modification", V, lv<V>().resize_nothrow(lv<Err>(), 1)); NX("vector modification", V, lv<V>().resize_nothrow(lv<Err>(), 1, cv<El>()));
NX("vector modification", V, lv<V>().copy_nothrow(lv<Err>(), cv<V>())); NX("vector modification", V, lv<V>().assign_nothrow(lv<Err>(), std::size_t(1), cv<El>())); NX("vector modification", V, lv<V>().assign_nothrow(lv<Err>(), cv<El*>(), cv<El*>())); NX("vector modification", V, lv<V>().swap(lv<V>()));
// list
typedef nestl::impl::list<El> L;
W("non-throwing list is not implicitly copied", !std::is_copy_constructible<L>::value && !std::is_copy_assignable<L>::value);
W("list moves without throwing", std::is_nothrow_constructible<L, L&&>::value && std::is_nothrow_move_assignable<L>::value);
W("list construction does not throw", std::is_nothrow_constructible<L, const L::allocator_type&>::value && std::is_nothrow_default_constructible<L>::value);
W("const list hands out const elements", std::is_same<decltype(cv<L>().front()), const El&>::value && std::is_same<decltype(cv<L>().back()), const El&>::value);
W("const list hands out const elements", std::is_same<decltype(*cv<L>().begin()), const El&>::value && std::is_same<decltype(*lv<L>().cbegin()), const El&>::value && std::is_same<decltype(*lv<L>().cend()), const El&>::value);
W("const list hands out const elements", std::is_same<decltype(*cv<L>().rbegin()), const El&>::value && std::is_same<decltype(*cv<L>().crbegin()), const El&>::value);
W("list hands out elements", std::is_same<decltype(lv<L>().front()), El&>::value && std::is_same<decltype(lv<L>().back()), El&>::value && std::is_same<decltype(*lv<L>().begin()), El&>::value && std::is_same<decltype(*lv<L>().rbegin()), El&>::value);
W("list iterators convert to const iterators only", std::is_convertible<L::iterator, L::const_iterator>::value && !std::is_convertible<L::const_iterator, L::iterator>::value);
W("list iterators are bidirectional", std::is_same<std::iterator_traits<L::iterator>::iterator_category, std::bidirectional_iterator_tag>::value && std::is_same<std::iterator_traits<L::const_iterator>::iterator_category, std::bidirectional_iterator_tag>::value);
W("list iterator value", std::is_same<std::iterator_traits<L::iterator>::value_type, El>::value && std::is_same<std::iterator_traits<L::iterator>::reference, El&>::value && std::is_same<std::iterator_traits<L::const_iterator>::reference, const El&>::value);
NX("list iteration", L, lv<L>().begin()); NX("list iteration", L, lv<L>().end()); NX("list iteration", L, cv<L>().begin()); NX("list iteration", L, cv<L>().cend()); NX("list iteration", L, cv<L>().rbegin()); NX("list iteration", L, cv<L>().crend());
NX("list iteration", L, ++lv<L::iterator>()); NX("list iteration", L, --lv<L::iterator>()); NX("list iteration", L, lv<L::iterator>()++); NX("list iteration", L, *lv<L::iterator>()); NX("list iteration", L, ++lv<L::const_iterator>()); NX("list iteration", L, *lv<L::const_iterator>());
NX("list size", L, cv<L>().empty()); NX("list size", L, cv<L>().size()); NX("list size", L, cv<L>().max_size()); NX("list", L, cv<L>().get_allocator()); NX("list", L, lv<L>().front()); NX("list", L, lv<L>().back());
NX("list modification", L, lv<L>().clear()); NX("list modification", L, lv<L>().insert_nothrow(lv<Err>(), cv<L>().cbegin(), cv<El>())); NX("list modification", L, lv<L>().insert_nothrow(lv<Err>(), cv<L>().cbegin(), cv<El*>(), cv<El*>())); NX("list modification", L, lv<L>().insert_nothrow(lv<Err>(), cv<L>().cbegin(), std::size_t(1), cv<El>()));
NX("list modification", L, lv<L>().emplace_nothrow(lv<Err>(), cv<L>().cbegin(), 1L)); NX("list modification", L, lv<L>().erase(cv<L>().cbegin())); NX("list modification", L, lv<L>().erase(cv<L>().cbegin(), cv<L>().cend()));
NX("list modification", L, lv<L>().push_back_nothrow(lv<Err>(), cv<El>())); NX("list modification", L, lv<L>().push_front_nothrow(lv<Err>(), cv<El>())); NX("list modification", L, lv<L>().emplace_back_nothrow(lv<Err>(), 1L)); NX("list modification", L, lv<L>().emplace_front_nothrow(lv<Err>(), 1L));
NX("list modification", L, lv<L>().pop_back()); NX("list modification", L, lv<L>().pop_front()); NX("list modification", L, lv<L>().swap(lv<L>())); NX("list modification", L, lv<L>().copy_nothrow(lv<Err>(), cv<L>())); NX("list modification", L, lv<L>().assign_nothrow(lv<Err>(), std::size_t(1), cv<El>())); NX("list modification", L, lv<L>().assign_nothrow(lv<Err>(), cv<El*>(), cv<El*>()));
NX("list ordering", L, lv<L>().splice(cv<L>().cbegin(), lv<L>())); NX("list ordering", L, lv<L>().splice(cv<L>().cbegin(), lv<L>(), cv<L>().cbegin())); NX("list ordering", L, lv<L>().merge(lv<L>())); NX("list ordering", L, lv<L>().merge(lv<L>(), std::less<El>())); NX("list ordering", L, lv<L>().sort()); NX("list ordering", L, lv<L>().sort(std::less<El>()));
// set
typedef nestl::impl::set<El> S;
W("set is not implicitly copied", !std::is_copy_constructible<S>::value && !std::is_copy_assignable<S>::value);
W("set moves without throwing", std::is_nothrow_constructible<S, S&&>::value && std::is_nothrow_move_assignable<S>::value);
W("elements of a set cannot be modified", std::is_same<decltype(*lv<S>().begin()), const El&>::value && std::is_same<decltype(*cv<S>().begin()), const El&>::value && std::is_same<decltype(*lv<S>().cbegin()), const El&>::value);
W("elements of a set cannot be modified", std::is_same<decltype(*lv<S>().rbegin()), const El&>::value && std::is_same<decltype(*lv<S>().find(cv<El>())), const El&>::value && std::is_same<decltype(*lv<S>().end()), const El&>::value);
W("set iterators are bidirectional", std::is_same<std::iterator_traits<S::iterator>::iterator_category, std::bidirectional_iterator_tag>::value);
NX("set iteration", S, lv<S>().begin()); NX("set iteration", S, lv<S>().end()); NX("set iteration", S, cv<S>().begin()); NX("set iteration", S, cv<S>().end()); NX("set iteration", S, cv<S>().cbegin()); NX("set iteration", S, cv<S>().cend()); NX("set iteration", S, lv<S>().rbegin()); NX("set iteration", S, cv<S>().rend()); NX("set iteration", S, cv<S>().crbegin()); NX("set iteration", S, cv<S>().crend());
NX("set size", S, cv<S>().empty()); NX("set size", S, cv<S>().size()); NX("set size", S, cv<S>().max_size()); NX("set", S, cv<S>().get_allocator());
NX("set modification", S, lv<S>().clear()); NX("set modification", S, lv<S>().insert_nothrow(lv<Err>(), cv<El>())); NX("set modification", S, lv<S>().erase(cv<S>().cbegin())); NX("set modification", S, lv<S>().erase(cv<El>())); NX("set modification", S, lv<S>().copy_nothrow(lv<Err>(), cv<S>()));
NX("set lookup", S, lv<S>().find(cv<El>()));
// shared pointers
typedef nestl::impl::shared_ptr<Base> PB; typedef nestl::impl::shared_ptr<Der> PD; typedef nestl::impl::weak_ptr<Base> WB;
W("shared pointers convert to a base", std::is_convertible<PD, PB>::value);
W("shared pointers do not adopt raw pointers", !std::is_convertible<Base*, PB>::value && !std::is_constructible<PB, Base*>::value);
W("shared pointers do not convert to bool silently", !std::is_convertible<PB, bool>::value && std::is_constructible<bool, PB>::value);
W("shared pointers never throw", std::is_nothrow_copy_constructible<PB>::value && std::is_nothrow_move_constructible<PB>::value && std::is_nothrow_copy_assignable<PB>::value && std::is_nothrow_move_assignable<PB>::value && std::is_nothrow_default_constructible<PB>::value && std::is_nothrow_constructible<PB, const PD&>::value);
W("weak pointers never throw", std::is_nothrow_copy_constructible<WB>::value && std::is_nothrow_move_constructible<WB>::value && std::is_nothrow_copy_assignable<WB>::value && std::is_nothrow_move_assignable<WB>::value && std::is_nothrow_default_constructible<WB>::value && std::is_nothrow_constructible<WB, const PB&>::value);
NX("shared pointer", PB, lv<PB>().reset()); NX("shared pointer", PB, lv<PB>().swap(lv<PB>())); NX("shared pointer", PB, cv<PB>().get()); NX("shared pointer", PB, *cv<PB>()); NX("shared pointer", PB, cv<PB>().use_count()); NX("shared pointer", PB, cv<PB>().unique()); NX("weak pointer", WB, cv<WB>().use_count()); NX("weak pointer", WB, cv<WB>().expired()); NX("weak pointer", WB, lv<WB>().reset());
// error objects
typedef nestl::no_exceptions::errc_based_error EC;
W("error codes do not convert silently", !std::is_convertible<EC, bool>::value && !std::is_convertible<int, EC>::value && std::is_constructible<bool, EC>::value);
W("error codes are the ones of the platform", nestl::errc::not_enough_memory == ENOMEM && nestl::errc::invalid_argument == EINVAL && nestl::errc::value_too_large == ERANGE);
NX("error code", EC, EC()); NX("error code", EC, cv<EC>().value()); NX("error code", EC, static_cast<bool>(cv<EC>()));
#if EXC
typedef nestl::has_exceptions::exception_ptr_error EP;
W("stored exceptions do not convert silently", !std::is_convertible<EP, bool>::value && std::is_constructible<bool, EP>::value);
NX("stored exception", EP, EP()); NX("stored exception", EP, cv<EP>().value()); NX("stored exception", EP, from_exception_ptr(lv<EP>(), std::exception_ptr())); NX("stored exception", EP, build_length_error(lv<EP>()));
#endif
// storage for one object
W("storage is large enough", sizeof(nestl::aligned_buffer<Big>) >= sizeof(Big) && sizeof(nestl::aligned_buffer<El>) >= sizeof(El) && sizeof(nestl::aligned_buffer<char[3]>) >= 3);
W("storage is aligned", alignof(nestl::aligned_buffer<Big>) >= alignof(Big) && alignof(nestl::aligned_buffer<long double>) >= alignof(long double) && alignof(nestl::aligned_buffer<void*>) >= alignof(void*));
// allocator traits
template <typename T> struct Min { typedef T value_type; template <typename U> struct rebind { typedef Min<U> other; }; Min() noexcept; template <typename U> Min(const Min<U>&) noexcept;
    template <typename OE> T* allocate(OE&, std::size_t, const void* = 0) noexcept; void deallocate(T*, std::size_t) noexcept; };
template <typename T> struct Full { typedef T value_type; struct pointer { T* p; }; typedef const T* const_pointer; typedef unsigned short size_type; typedef std::true_type propagate_on_container_copy_assignment; typedef std::true_type propagate_on_container_move_assignment; };
typedef nestl::allocator_traits<Min<El> > TM; typedef nestl::allocator_traits<Full<El> > TF; typedef nestl::allocator_traits<nestl::allocator<El> > TN;
W("defaults of a minimal allocator", std::is_same<TM::pointer, El*>::value && std::is_same<TM::const_pointer, const El*>::value && std::is_same<TM::size_type, std::size_t>::value && std::is_same<TM::value_type, El>::value);
W("a minimal allocator does not propagate", !TM::propagate_on_container_move_assignment::value && !TM::propagate_on_container_copy_assignment::value);
W("types of an allocator are respected", std::is_same<TF::pointer, Full<El>::pointer>::value && std::is_same<TF::const_pointer, const El*>::value && std::is_same<TF::size_type, unsigned short>::value);
W("propagation of an allocator is respected", TF::propagate_on_container_move_assignment::value && TF::propagate_on_container_copy_assignment::value);
W("default allocator propagates on move", TN::propagate_on_container_move_assignment::value && !TN::propagate_on_container_copy_assignment::value);
W("default allocator rebinds", std::is_same<nestl::allocator<El>::rebind<int>::other, nestl::allocator<int> >::value);
W("default allocator never throws", noexcept(lv<nestl::allocator<El> >().allocate(lv<Err>(), 1)) && noexcept(lv<nestl::allocator<El> >().deallocate(nullptr, 1)) && std::is_nothrow_default_constructible<nestl::allocator<El> >::value);
NX("traits", TM, TM::allocate(lv<Err>(), lv<Min<El> >(), 1)); NX("traits", TM, TM::deallocate(lv<Min<El> >(), static_cast<El*>(nullptr), 1));
// construction
NX("construction", El, nestl::class_operations::construct(lv<Err>(), static_cast<El*>(nullptr), cv<El>()));
NX("construction", El, nestl::class_operations::construct(lv<Err>(), static_cast<El*>(nullptr), 1L));
NX("construction", El, nestl::class_operations::construct(lv<Err>(), static_cast<El*>(nullptr)));
NX("construction in two phases", Two, nestl::class_operations::construct(lv<Err>(), static_cast<Two*>(nullptr), cv<Two>()));
NX("construction in two phases", Two, nestl::class_operations::construct(lv<Err>(), static_cast<Two*>(nullptr), 1));
NX("assignment", El, nestl::class_operations::assign(lv<Err>(), lv<El>(), cv<El>()));
template <typename T, typename A, typename = void> struct can : std::false_type {};
template <typename T, typename A> struct can<T, A, decltype(nestl::class_operations::construct(lv<Err>(), static_cast<T*>(nullptr), std::declval<A>()))> : std::true_type {};
struct None { };
W("construct takes part in overload resolution only when it can work", can<El, const El&>::value && can<Two, const Two&>::value && !can<Two, None>::value && !can<El, None>::value);
// nested containers are copied by the two-phase entry point
W("containers of containers", can<nestl::impl::vector<El>, const nestl::impl::vector<El>&>::value && can<nestl::impl::list<El>, const nestl::impl::list<El>&>::value);
typedef nestl::impl::vector<nestl::impl::vector<Not> > VV; typedef nestl::impl::list<nestl::impl::list<Not> > LL;
void nested(VV& a, const VV& b, LL& c, const LL& d, Err& e) { a.copy_nothrow(e, b); a.push_back_nothrow(e, b.front()); c.copy_nothrow(e, d); c.push_back_nothrow(e, d.front()); a.resize_nothrow(e, 3); }
void two(nestl::impl::vector<Two>& a, nestl::impl::list<Two>& b, const Two& x, Err& e) { a.push_back_nothrow(e, x); a.emplace_back_nothrow(e, 3); b.push_back_nothrow(e, x); b.emplace_front_nothrow(e, 3); }
void scalars(nestl::impl::vector<int>& a, nestl::impl::list<long>& b, nestl::impl::set<char>& c, Err& e) { a.push_back_nothrow(e, 1); a.resize_nothrow(e, 3); a.assign_nothrow(e, std::size_t(3), 4); b.push_front_nothrow(e, 2); c.insert_nothrow(e, 'x'); int x = 0; nestl::class_operations::assign(e, x, 3); }
void minimal(nestl::impl::vector<El, Min<El> >& a, nestl::impl::list<El, Min<El> >& b, nestl::impl::set<El, std::less<El>, Min<El> >& c, const El& x, Err& e)
{ a.push_back_nothrow(e, x); b.push_back_nothrow(e, x); c.insert_nothrow(e, x); c.erase(x); a.clear(); b.clear(); c.clear(); (void)a.max_size(); (void)b.max_size(); (void)c.max_size(); Min<El> m; nestl::make_shared_a_nothrow<El>(e, m, x); }
void pointers(Err& e, const El& x) { nestl::shared_ptr<El> p = nestl::make_shared_nothrow<El>(e, x); nestl::weak_ptr<El> w(p); p = w.lock(); p = nullptr; }
void strings() { nestl::string s; nestl::wstring w; (void)s; (void)w; }
void sets(S& a, S& b, const El& x, Err& e) { a = std::move(b); a.copy_nothrow(e, b); a.erase(a.begin()); a.erase(x); a.find(x); a.insert_nothrow(e, x); S c(std::move(a)); S d(std::less<El>(), b.get_allocator()); S f(b.get_allocator()); }
