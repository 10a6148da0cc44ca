// C19: checked access is checked, and the library never trips its own checks
// vc-part: -DPART=1
// vc-part: -DPART=2
// vc-part: -DPART=3
#include "abs.hpp"
#include <functional>
#include <iterator>

#ifdef NDEBUG
constexpr bool CHECKED = false;                                     // without checks an empty access is outside the contract
#else
constexpr bool CHECKED = true;
#endif
// On an engaged option the access returns; on an empty one it must stop at its check, before anything is touched.
#define ACCESS(E, WHAT) ALT({                                                                                            \
    if (h) { (void)(E); vc_assert(o.has_value(), WHAT " returns on an engaged option"); }                                \
    else if (CHECKED) { vc_trap_ok(true); (void)(E); vc_trap_ok(false); vc_assert(false, WHAT " stops at its check on an empty option"); } \
    s.destroy(); })
template<class T>
void access() {
    using O = opt::option<T>;
    Arb<T> s;
    O& o = s.o;
    const O& c = o;
    const bool h = s.h;
    vc_cover("reached");
    if (h) { vc_cover("engaged"); } else { vc_cover("empty"); }
    ACCESS(o.get(), "get() &") ACCESS(c.get(), "get() const&") ACCESS(std::move(o).get(), "get() &&") ACCESS(std::move(c).get(), "get() const&&")
    ACCESS(*o, "operator* &") ACCESS(*c, "operator* const&") ACCESS(*std::move(o), "operator* &&") ACCESS(*std::move(c), "operator* const&&")
    ACCESS(o.operator->(), "operator->") ACCESS(c.operator->(), "operator-> const")
    ACCESS(*o.begin(), "*begin()") ACCESS(*c.begin(), "*begin() const") ACCESS(o.begin().operator->(), "begin()->") ACCESS(o.begin()[0], "begin()[0]")
    ACCESS(++o.begin(), "++begin()") ACCESS(o.begin()++, "begin()++") ACCESS(--o.end(), "--end()") ACCESS(o.end()--, "end()--")
    ACCESS(o.begin() + 1, "begin() + 1") ACCESS(1 + o.begin(), "1 + begin()") ACCESS(o.end() - 1, "end() - 1") ACCESS(o.begin() += 1, "begin() += 1") ACCESS(o.end() -= 1, "end() -= 1")
    s.destroy();
}
template<class R, class T>
void access_ref(T& x) {
    opt::option<R> o;
    const bool h = vc_nondet_bool();
    if (h) { o.emplace(static_cast<R>(x)); }
    const opt::option<R>& c = o;
    struct { void destroy() {} } s;
    vc_cover("reached");
    ACCESS(o.get(), "get() &") ACCESS(c.get(), "get() const&") ACCESS(std::move(o).get(), "get() &&") ACCESS(std::move(c).get(), "get() const&&")
    ACCESS(*o, "operator* &") ACCESS(*c, "operator* const&") ACCESS(*std::move(o), "operator* &&") ACCESS(*std::move(c), "operator* const&&")
    ACCESS(o.operator->(), "operator->") ACCESS(c.operator->(), "operator-> const") ACCESS(*o.begin(), "*begin()")
    ACCESS(o.get_unchecked(), "get_unchecked() of a reference option") ACCESS(c.get_unchecked(), "get_unchecked() of a reference option")
    vc_assert(o.has_value() == h, "reference option");
}
template<class T>
void access_nested() {
    opt::option<opt::option<T>> o;
    const u32 k = vc_nondet_u32() % 3;                               // empty outside, empty inside, a value
    Arb<T> v;
    vc_assume(v.h);
    if (k > 0) { o.emplace(); }
    if (k > 1) { o->emplace(std::move(v.o.get_unchecked())); }
    bool h = k > 0;
    struct S { Arb<T>& v; opt::option<opt::option<T>>& o; void destroy() { v.destroy(); } } s{v, o};
    vc_cover("reached");
    ACCESS(o.get(), "outer get()") ACCESS(*std::as_const(o), "outer operator* const") ACCESS(o->has_value(), "outer operator->")
    h = k > 1;
    ACCESS(o->get(), "inner get()") ACCESS(**o, "double dereference") ACCESS(*(o->begin()), "inner iterator")
    if (k == 1) { vc_assert(o.has_value() && !o->has_value(), "an empty inner option is a value of the outer one"); }
    s.destroy();
}

// every operation documented for any state keeps the option well defined (each intermediate check, optimiser assumption
// and memory access is an obligation), for arbitrary states of the operands
#define WELL(X) { vc_assert((X).has_value() == ((X) != opt::none), "the option answers its queries consistently"); if ((X).has_value()) { vc_assert(M<T>::ok((X).get_unchecked()), "an engaged option holds a live value"); } }
#define OP(...) ALT({ __VA_ARGS__; WELL(o) s.destroy(); })
#define OP2(...) ALT({ { Arb<T> t; __VA_ARGS__; WELL(o) WELL(t.o) t.destroy(); } s.destroy(); })
template<class T>
void total() {
    using O = opt::option<T>;
    Arb<T> s;
    O& o = s.o;
    const O& c = o;
    const u32 n = vc_nondet_u32();
    vc_cover("reached");
    OP((void)(o.has_value() && bool(c)); (void)(c == opt::none); (void)(opt::none != c); (void)c.ptr_or_null(); (void)o.ptr_or_null())
    OP(for (auto& x : o) { (void)x; } for (auto& x : c) { (void)x; })
    OP(o.reset(); o.reset()) OP(o = opt::none) OP(O e; (void)e.has_value()) OP(O e(opt::none); (void)e.has_value())
    OP(o.emplace(M<T>::make(n))) OP(o.try_emplace(M<T>::make(n))) OP(o = M<T>::make(n))
    OP(auto t = o.take(); WELL(t)) OP(auto t = o.take_if([](T&) { return vc_nondet_bool(); }); WELL(t))
    OP(O e(std::move(o)); WELL(e)) OP(o.swap(o)) OP(O e; o.swap(e); WELL(e))
    OP2(o = std::move(t.o)) OP2(o.swap(t.o)) OP2(opt::swap(o, t.o)) OP2(auto r = std::move(o) | std::move(t.o); WELL(r)) OP2(auto r = std::move(o) & std::move(t.o); WELL(r)) OP2(auto r = std::move(o) ^ std::move(t.o); WELL(r)) OP2(o |= std::move(t.o))
    OP2(auto r = std::move(o).or_else([&]() -> O { return std::move(t.o); }); WELL(r)) OP2(auto r = opt::zip(std::move(o), std::move(t.o)); (void)r.has_value())
    OP(auto& self = o; o = std::move(self))
#define NOTHROW_OR(E) OP(try { (void)(E); vc_assert(s.h, "value access on an empty option does not return"); } catch (const opt::bad_access&) { vc_assert(!s.h, "value access on an engaged option does not throw"); })
    NOTHROW_OR(o.value()) NOTHROW_OR(c.value()) NOTHROW_OR(std::move(o).value()) NOTHROW_OR(std::move(c).value())
    NOTHROW_OR(o.value_or_throw()) NOTHROW_OR(c.value_or_throw()) NOTHROW_OR(std::move(o).value_or_throw()) NOTHROW_OR(std::move(c).value_or_throw())
    OP((void)c.map_or(1, [](const T&) { return 2; }); (void)c.map_or_else([] { return 1; }, [](const T&) { return 2; })) OP((void)c.map([](const T&) { return 1; })) OP((void)c.and_then([](const T&) { return opt::option<int>{}; }))
    OP(o.inspect([](T&) {}); c.inspect([](const T&) {}); (void)c.has_value_and([](const T&) { return vc_nondet_bool(); })) OP((void)std::move(o).value_or(M<T>::make(n))) OP(auto r = std::move(o).filter([](const T&) { return vc_nondet_bool(); }); WELL(r))
    OP({ opt::option<O> nest(std::move(o)); auto f = opt::flatten(std::move(nest)); WELL(f) }) OP({ opt::option<O> nest; nest.emplace(std::move(o)); nest->reset(); nest.reset(); nest = O{}; })
    if constexpr (std::is_copy_constructible_v<T>) {
        OP(O e(c); WELL(e)) OP(auto& self = o; o = self) OP2(o = t.o) OP2(auto r = o | t.o; WELL(r)) OP2(auto r = o & t.o; WELL(r)) OP2(auto r = o ^ t.o; WELL(r)) OP2(o |= t.o)
        OP((void)c.value_or(M<T>::make(n))) OP(auto r = c.filter([](const T&) { return vc_nondet_bool(); }); WELL(r)) OP(auto r = opt::make_option(c); (void)r.has_value())
        OP(auto r = c.or_else([]() -> O { return {}; }); WELL(r)) OP(auto r = c | M<T>::make(n); (void)r)
    }
    s.destroy();
}
// iterators of an option in any state support every use that a range permits
template<class T>
void iterators() {
    Arb<T> s;
    auto& o = s.o;
    const auto& c = o;
    vc_cover("reached");
    const std::ptrdiff_t n = s.h ? 1 : 0;
    vc_assert(o.begin() + n == o.end() && n + o.begin() == o.end() && o.end() - n == o.begin(), "end() is begin() + has_value()");
    vc_assert(o.end() - o.begin() == n && o.begin() - o.end() == -n && c.end() - c.begin() == n, "the range holds at most one element");
    vc_assert((o.begin() < o.end()) == s.h && (o.end() > o.begin()) == s.h && o.begin() <= o.end() && o.end() >= o.begin(), "iterators are ordered");
    vc_assert((c.begin() < c.end()) == s.h && !(o.begin() < o.begin()) && !(o.end() > o.end()), "iterators are ordered");
    vc_assert((o.begin() <= o.begin()) && (o.begin() >= o.end()) == !s.h && (o.begin() != o.end()) == s.h, "iterators are ordered");
    auto i = o.begin();
    i += n; vc_assert(i == o.end(), "+="); i -= n; vc_assert(i == o.begin(), "-="); i += 0; i -= 0; vc_assert(i + 0 == i - 0 && i == o.begin(), "moving by zero");
    u32 k = 0;
    for (auto it = o.begin(); it < o.end(); ++it) { ++k; }
    vc_assert(k == u32(n), "a loop over the range visits each element once");
    vc_assert(std::distance(o.begin(), o.end()) == n && std::next(o.begin(), n) == o.end() && std::prev(o.end(), n) == o.begin(), "standard iterator functions");
#if __cplusplus >= 202002L
    vc_assert(std::contiguous_iterator<decltype(o.begin())> && std::contiguous_iterator<decltype(c.begin())>, "contiguous iterators");
    vc_assert(std::to_address(o.begin()) == o.ptr_or_null() && std::to_address(c.begin()) == o.ptr_or_null() && std::to_address(o.end()) == (s.h ? o.ptr_or_null() + 1 : nullptr), "to_address is defined for every iterator of the range");
#endif
    vc_assert(is_state(o, s.h, s.v), "iterating changes nothing");
    s.destroy();
}
template<class T>
void total_compare() {
    Arb<T> a, b;
    vc_cover("reached");
    (void)(a.o == b.o); (void)(a.o != b.o); (void)(a.o < b.o); (void)(a.o <= b.o); (void)(a.o > b.o); (void)(a.o >= b.o);
    vc_assert(is_state(a.o, a.h, a.v) && is_state(b.o, b.h, b.v), "comparing changes nothing");
}
#define I1(NAME, ...) VC_SPEC(C19_access_##NAME) { access<__VA_ARGS__>(); } VC_SPEC(C19_nested_##NAME) { access_nested<__VA_ARGS__>(); }
#define I2(NAME, ...) VC_SPEC(C19_total_##NAME) { total<__VA_ARGS__>(); }
#define I3(NAME, ...) VC_SPEC(C19_iterators_##NAME) { iterators<__VA_ARGS__>(); }
#define I4(NAME, ...) VC_SPEC(C19_compare_##NAME) { total_compare<__VA_ARGS__>(); }
#if PART == 1
FAM_CONST(I1) FAM_ALL(I1) FAM_OPT(I1)
I1(triv5, Triv<5>) I1(triv10_t, Triv<10, 2>)
FAM_SCALAR(I3) I3(abs, Abs<1>) I3(abs_t3, Abs<1, 3>) I3(ta_t2, AbsTA<1, 2>) I3(triv15_t2, Triv<15, 2>) I3(mo_t1, Abs<1, 1, true, false>)
VC_SPEC(C19_access_ref) { u32 x; access_ref<u32&>(x); }
VC_SPEC(C19_access_cref) { const u32 x = 1; access_ref<const u32&>(x); }
VC_SPEC(C19_access_rref) { u32 x; access_ref<u32&&>(x); }
I4(int, u32) I4(byte, u8) I4(bool, bool) I4(float, float) I4(cmp, Cmp)
#elif PART == 2
FAM_SCALAR(I2) FAM_ABS(I2) FAM_MOVEONLY(I2)
#else
FAM_TRIV(I2) I2(triv5, Triv<5>) I2(triv10, Triv<10>) I2(triv3_t, Triv<3, 2>) I2(triv12_t, Triv<12, 2>)
#endif
