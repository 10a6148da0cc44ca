// C02: copying, moving and converting preserve the logical state
// vc-part: -DPART=1
// vc-part: -DPART=2
// vc-part: -DPART=3
// vc-part: -DPART=4
// vc-part: -DPART=5
#include "abs.hpp"

template<class T>
void copy_construct() {
    using O = opt::option<T>;
    Arb<T> s;
    const u8 sh = how_of(s.o);
    vc_cover("reached");
    {
        O a(s.o);
        vc_assert(is_state(a, s.h, s.v), "copy construction: target holds the copied state");
        vc_assert(is_state(s.o, s.h, s.v), "copy construction leaves the source unchanged");
        if (s.h) vc_assert(how_of(a) == (Ops<T>::cc ? COPIED : sh), "copy construction uses T's copy constructor");
        const O& cs = s.o;
        O b = cs;
        vc_assert(is_state(b, s.h, s.v) && is_state(s.o, s.h, s.v), "copy construction from const");
        if (s.h) vc_assert(how_of(b) == (Ops<T>::cc ? COPIED : sh), "copy construction from const uses T's copy constructor");
        O c(static_cast<const O&&>(cs));
        vc_assert(is_state(c, s.h, s.v) && is_state(s.o, s.h, s.v), "construction from a const r-value copies");
    }
    s.destroy();
}
template<class T>
void move_construct() {
    using O = opt::option<T>;
    Arb<T> s;
    const u8 sh = how_of(s.o);
    vc_cover("reached");
    {
        O a(std::move(s.o));
        vc_assert(is_state(a, s.h, s.v), "move construction: target holds the moved state");
        vc_assert(is_state(s.o, s.h, left_mc<T>(s.v)), "move construction leaves the source engaged iff it was, with a moved-from value");
        if (s.h) vc_assert(how_of(a) == (Ops<T>::mc ? MOVED : sh), "move construction uses T's move constructor");
    }
    s.destroy();
}
template<class T>
void copy_assign() {
    using O = opt::option<T>;
    {
        Arb<T> s, t;
        const u8 sh = how_of(s.o);
        vc_cover("reached");
        O& r = (t.o = s.o);
        vc_assert(&r == &t.o, "copy assignment returns the target");
        vc_assert(is_state(t.o, s.h, s.v), "copy assignment: target holds the copied state");
        vc_assert(is_state(s.o, s.h, s.v), "copy assignment leaves the source unchanged");
        if (s.h) {
            if (t.h) { if constexpr (Ops<T>::ca) vc_assert(how_of(t.o) == CASSIGNED || how_of(t.o) == COPIED, "copy assignment uses T's copy operations"); }
            else vc_assert(how_of(t.o) == (Ops<T>::cc ? COPIED : sh), "copy assignment to an empty option uses T's copy constructor");
        }
        s.destroy();
        t.destroy();
    }
    {
        Arb<T> s;
        O& alias = s.o;
        s.o = alias;
        vc_assert(is_state(s.o, s.h, s.v), "copy self-assignment preserves the state");
        s.destroy();
    }
}
template<class T>
void move_assign() {
    using O = opt::option<T>;
    {
        Arb<T> s, t;
        const u8 sh = how_of(s.o);
        vc_cover("reached");
        O& r = (t.o = std::move(s.o));
        vc_assert(&r == &t.o, "move assignment returns the target");
        vc_assert(is_state(t.o, s.h, s.v), "move assignment: target holds the moved state");
        vc_assert(s.o.has_value() == s.h, "move assignment leaves the source engaged iff it was");
        if (s.h) {
            vc_assert(is_val(s.o, t.h ? left_ma<T>(s.v) : left_mc<T>(s.v)) || (t.h && is_val(s.o, left_mc<T>(s.v))), "move assignment leaves a moved-from value");
            if (t.h) { if constexpr (Ops<T>::ma) vc_assert(how_of(t.o) == MASSIGNED || how_of(t.o) == MOVED, "move assignment uses T's move operations"); }
            else vc_assert(how_of(t.o) == (Ops<T>::mc ? MOVED : sh), "move assignment to an empty option uses T's move constructor");
        }
        s.destroy();
        t.destroy();
    }
    {
        Arb<T> s;
        O& alias = s.o;
        s.o = std::move(alias);
        vc_assert(is_state(s.o, s.h, s.v), "move self-assignment preserves the state");
        s.destroy();
    }
}
#define INSTC(NAME, ...)                                                 \
    VC_SPEC(C02_copyctor_##NAME) { copy_construct<__VA_ARGS__>(); }      \
    VC_SPEC(C02_copyassign_##NAME) { copy_assign<__VA_ARGS__>(); }
#define INSTM(NAME, ...)                                                 \
    VC_SPEC(C02_movector_##NAME) { move_construct<__VA_ARGS__>(); }      \
    VC_SPEC(C02_moveassign_##NAME) { move_assign<__VA_ARGS__>(); }
#define INST(NAME, ...) INSTC(NAME, __VA_ARGS__) INSTM(NAME, __VA_ARGS__)

// --- converting --------------------------------------------------------------------------------------------------------
// conversions that tell l-value and r-value sources apart
template<u32 ML>
struct Conv {
    u32 v;
    u8 how;
    u8 lvl;
    using Src = Abs<2>;
    void set(u64 x, How h) noexcept { v = u32(x); how = h; lvl = u8(ML); }
    Conv(const Src& a) noexcept { Src::need(a, "conversion from a dead object"); set(vc_uf(UF_CONV, a.v, 1), COPIED); }
    Conv(Src&& a) noexcept { Src::need(a, "conversion from a dead object"); set(vc_uf(UF_CONV, a.v, 2), MOVED); a.leave(); }
    Conv& operator=(const Src& a) noexcept { Src::need(a, "conversion from a dead object"); set(vc_uf(UF_CONV, a.v, 1), CASSIGNED); return *this; }
    Conv& operator=(Src&& a) noexcept { Src::need(a, "conversion from a dead object"); set(vc_uf(UF_CONV, a.v, 2), MASSIGNED); a.leave(); return *this; }
};
template<u32 ML>
struct opt::option_traits<Conv<ML>> { VC_TRAITS(Conv<ML>, ML) };
template<u32 ML>
struct M<Conv<ML>> : M_abs<Conv<ML>> {
    static void assume_valid(const Conv<ML>& x) noexcept { vc_assume(x.lvl == ML); }
    static bool ok(const Conv<ML>& x) noexcept { return x.lvl == ML; }
};
template<class C>
void convert() {
    using O = opt::option<C>;
    using S = Abs<2>;
    {
        Arb<S> s;
        const u64 e = u32(vc_uf(UF_CONV, s.v, 1));
        vc_cover("reached");
        {
            O a(s.o);
            vc_assert(is_state(a, s.h, e), "converting construction yields T's conversion of the source value");
            vc_assert(is_state(s.o, s.h, s.v), "converting construction from an l-value leaves the source unchanged");
            const opt::option<S>& c = s.o;
            O b = c;
            vc_assert(is_state(b, s.h, e) && is_state(s.o, s.h, s.v), "implicit converting construction from const");
        }
        s.destroy();
    }
    {
        Arb<S> s;
        const u64 e = u32(vc_uf(UF_CONV, s.v, 2));
        {
            O a(std::move(s.o));
            vc_assert(is_state(a, s.h, e), "converting move construction converts from an r-value");
            vc_assert(is_state(s.o, s.h, M<S>::after_move(s.v)), "converting move construction leaves the source engaged iff it was");
        }
        s.destroy();
    }
    {
        Arb<S> s;
        Arb<C> t;
        O& r = (t.o = s.o);
        vc_assert(&r == &t.o && is_state(t.o, s.h, u32(vc_uf(UF_CONV, s.v, 1))), "converting assignment yields T's conversion");
        vc_assert(is_state(s.o, s.h, s.v), "converting assignment from an l-value leaves the source unchanged");
        s.destroy(); t.destroy();
    }
    {
        Arb<S> s;
        Arb<C> t;
        O& r = (t.o = std::move(s.o));
        vc_assert(&r == &t.o && is_state(t.o, s.h, u32(vc_uf(UF_CONV, s.v, 2))), "converting move assignment converts from an r-value");
        vc_assert(is_state(s.o, s.h, M<S>::after_move(s.v)), "converting move assignment leaves the source engaged iff it was");
        s.destroy(); t.destroy();
    }
}
// tracked target, plain source
template<class T>
void convert_from_v() {
    using O = opt::option<T>;
    const bool h = vc_nondet_bool();
    const V x{vc_nondet_u32()};
    opt::option<V> s;
    if (h) { s = x; }
    vc_cover("reached");
    {
        O a(s);
        vc_assert(is_state(a, h, x.x) && how_of(a) == (h ? BUILT : 0), "converting construction converts the value");
        O b(std::move(s));
        vc_assert(is_state(b, h, x.x), "converting move construction converts the value");
        vc_assert(s.has_value() == h, "source of a converting move stays engaged iff it was");
    }
    opt::option<W> w;
    if (h) { w.emplace(W{x.x}); }
    {
        O a(w);
        vc_assert(is_state(a, h, u32(vc_uf(UF_CONV, x.x, 0))), "explicit converting construction converts the value");
        O b(std::move(w));
        vc_assert(is_state(b, h, u32(vc_uf(UF_CONV, x.x, 0))), "explicit converting move construction converts the value");
    }
    {
        Arb<T> t;
        t.o = s;
        vc_assert(is_state(t.o, h, x.x), "converting assignment converts the value");
        if (h) vc_assert(how_of(t.o) == (t.h ? VASSIGNED : BUILT), "converting assignment uses T's operations");
        t.destroy();
    }
    {
        Arb<T> t;
        t.o = std::move(s);
        vc_assert(is_state(t.o, h, x.x), "converting move assignment converts the value");
        vc_assert(s.has_value() == h, "source of a converting move assignment stays engaged iff it was");
        t.destroy();
    }
}
template<class T, class U>
void convert_arith() {
    Arb<U> s;
    Arb<T> t;
    const T e = s.h ? static_cast<T>(s.o.get_unchecked()) : T{};
    vc_cover("reached");
    opt::option<T> a(s.o), b(std::move(s.o));
    vc_assert(is_state(a, s.h, M<T>::val(e)) && is_state(b, s.h, M<T>::val(e)), "converting construction converts arithmetically");
    t.o = s.o;
    vc_assert(is_state(t.o, s.h, M<T>::val(e)) && is_state(s.o, s.h, s.v), "converting assignment converts arithmetically");
    Arb<T> q;
    q.o = std::move(s.o);
    vc_assert(is_state(q.o, s.h, M<T>::val(e)), "converting move assignment converts arithmetically");
    s.destroy(); t.destroy(); q.destroy();
}
// options convert to option<bool> by value, never by "has a value"
#if PART == 1
FAM_SCALAR(INST) FAM_ABS(INST) FAM_MOVEONLY(INSTM) FAM_OPT(INST)
#elif PART == 2
FAM_TRIV_ALL(INST)
#elif PART == 3
FAM_TRIV_ALL_T(INST)
#elif PART == 5
// --- element types that can themselves be built or assigned from the source option ------------------------------------
// FO is constructible (explicitly or not) and assignable from exactly the given forms of option<V>:
// bit 0 option&, bit 1 const option&, bit 2 option&&, bit 3 const option&&.  Where a form is offered, the option is
// passed to T whole; only a T that offers none is built (assigned) from the value inside.
enum Route : u32 { R_NONE, R_VALUE = 10, R_OPTION = 20, R_ASSIGN_VALUE = 30, R_ASSIGN_OPTION = 40 };
using OV = opt::option<V>;
template<class Q> constexpr int form = std::is_same_v<Q, OV&> ? 1 : std::is_same_v<Q, const OV&> ? 2 : std::is_same_v<Q, OV> ? 4 : std::is_same_v<Q, const OV> ? 8 : 0;
template<int C, int A, bool X>
struct FO {
    u32 v;
    u32 route;
    FO(const V& x) noexcept : v(x.x), route(R_VALUE) {}
    template<class Q, std::enable_if_t<(form<Q> & C) != 0 && !X, int> = 0>
    FO(Q&& o) noexcept : v(o.has_value() ? o.get_unchecked().x : 0), route(R_OPTION + form<Q>) {}
    template<class Q, std::enable_if_t<(form<Q> & C) != 0 && X, int> = 0>
    explicit FO(Q&& o) noexcept : v(o.has_value() ? o.get_unchecked().x : 0), route(R_OPTION + form<Q>) {}
    FO(const FO&) = default;
    FO& operator=(const FO&) = default;
    FO& operator=(const V& x) noexcept { v = x.x; route = R_ASSIGN_VALUE; return *this; }
    template<class Q, std::enable_if_t<(form<Q> & A) != 0, int> = 0>
    FO& operator=(Q&& o) noexcept { v = o.has_value() ? o.get_unchecked().x : 0; route = R_ASSIGN_OPTION + form<Q>; return *this; }
};
template<class T>
bool is_fo(const opt::option<T>& o, u32 v, u32 route) noexcept { return o.has_value() && o.get_unchecked().v == v && o.get_unchecked().route == route; }
template<int C, int A, bool X, class Q>
void from_option(Q q) {
    using T = FO<C, A, X>;
    using O = opt::option<T>;
    constexpr int f = form<std::conditional_t<std::is_lvalue_reference_v<Q>, Q, std::remove_reference_t<Q>>>;
    constexpr bool whole = (C & f) != 0;                             // T can be built from this very expression
    constexpr bool inside = C == 0;                                 // T cannot be built from the option in any form
    const bool h = q.has_value();
    const u32 x = h ? q.get_unchecked().x : 0;
    vc_assert((std::is_constructible_v<O, Q>) == (whole || inside), "constructible from an option of another type exactly as documented");
    vc_assert((std::is_convertible_v<Q, O>) == ((whole && !X) || inside), "implicitly convertible exactly when T is");
    if constexpr (whole || inside) {
        O o(static_cast<Q>(q));
        if constexpr (whole) { vc_assert(is_fo(o, x, R_OPTION + f), "T is built from the option itself"); }
        else { vc_assert(h ? is_fo(o, x, R_VALUE) : !o.has_value(), "T is built from the contained value"); }
    }
    constexpr bool value_assign = whole && (A & f) != 0;
    constexpr bool option_assign = C == 0 && A == 0;
    constexpr bool through = !value_assign && !option_assign && ((whole && !X) || inside);
    vc_assert((std::is_assignable_v<O&, Q>) == (value_assign || option_assign || through), "assignable from an option of another type exactly as documented");
    if constexpr (value_assign || option_assign || through) {
        O o;
        const bool e = vc_nondet_bool();
        if (e) { o.emplace(V{1}); }
        o = static_cast<Q>(q);
        if constexpr (value_assign) { vc_assert(is_fo(o, x, e ? R_ASSIGN_OPTION + f : R_OPTION + f), "T is assigned the option itself"); }
        else if constexpr (option_assign) { vc_assert(h ? is_fo(o, x, e ? R_ASSIGN_VALUE : R_VALUE) : !o.has_value(), "T is assigned the contained value"); }
        else if constexpr (whole) { vc_assert(is_fo(o, x, R_OPTION + f), "the option is converted, then moved in"); }
        else { vc_assert(h ? is_fo(o, x, R_VALUE) : !o.has_value(), "the option is converted, then moved in"); }
    }
    vc_assert(q.has_value() == h && (!h || q.get_unchecked().x == x), "the source keeps its state");
}
template<int C, int A, bool X>
void from_options() {
    const bool h = vc_nondet_bool();
    OV s;
    if (h) { s.emplace(V{vc_nondet_u32()}); }
    vc_cover("reached");
    ALT({ (from_option<C, A, X, OV&>(s)); })
    ALT({ (from_option<C, A, X, const OV&>(s)); })
    ALT({ (from_option<C, A, X, OV&&>(std::move(s))); })
    (from_option<C, A, X, const OV&&>(std::move(s)));
}
#define I6(C, A) VC_SPEC(C02_from_option_##C##_##A) { if (vc_nondet_bool()) { from_options<C, A, false>(); } else { from_options<C, A, true>(); } }
#define I7(A) I6(0, A) I6(1, A) I6(2, A) I6(4, A) I6(8, A) I6(3, A) I6(6, A) I6(12, A) I6(15, A)
I7(0) I7(1) I7(2) I7(4) I7(8) I7(6) I7(15)
#else
VC_SPEC(C02_convert) { convert<Conv<0>>(); }
VC_SPEC(C02_convert_t) { convert<Conv<2>>(); }
#define I4(NAME, ...) VC_SPEC(C02_convertv_##NAME) { convert_from_v<__VA_ARGS__>(); }
FAM_ABS(I4) FAM_TRIV(I4)
VC_SPEC(C02_convert_t1) { convert<Conv<1>>(); }
VC_SPEC(C02_u64_from_u32) { convert_arith<u64, u32>(); }
VC_SPEC(C02_u8_from_u32) { convert_arith<u8, u32>(); }
VC_SPEC(C02_u32_from_bool) { convert_arith<u32, bool>(); }
VC_SPEC(C02_bool_from_u32) { convert_arith<bool, u32>(); }
VC_SPEC(C02_bool_from_ptr) { convert_arith<bool, u32*>(); }
VC_SPEC(C02_s64_from_s16) { convert_arith<std::int64_t, std::int16_t>(); }
VC_SPEC(C02_nested_from_nested) {
    const bool h1 = vc_nondet_bool(), h2 = vc_nondet_bool();
    const u32 x = vc_nondet_u32();
    opt::option<opt::option<u32>> s;
    if (h1) { s.emplace(); if (h2) { s.get() = x; } }
    vc_cover("reached");
    opt::option<opt::option<u32>> a(s), b(std::move(s));
    vc_assert(a.has_value() == h1 && b.has_value() == h1, "nested copy: outer level");
    if (h1) vc_assert(is_state(a.get(), h2, x) && is_state(b.get(), h2, x), "nested copy: inner level");
}
#endif
