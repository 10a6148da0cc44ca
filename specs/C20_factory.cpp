// C20: factory and conversion helpers are faithful
// vc-part: -DPART=1
// vc-part: -DPART=2
#include "legit.hpp"

template<class T>
void make_value() {
    using O = opt::option<T>;
    Arb<T> s;
    vc_assume(s.h);
    T& t = s.o.get_unchecked();
    vc_cover("reached");
    if constexpr (std::is_copy_constructible_v<T>) {
        const u8 h0 = how_of(s.o);
        ALT({ { auto r = opt::make_option(t); vc_assert(std::is_same_v<decltype(r), O> && is_val(r, s.v) && is_val(s.o, s.v) && (!Ops<T>::obs || how_of(r) == (Ops<T>::cc ? COPIED : h0)), "make_option of an l-value copies it"); } s.destroy(); })
        ALT({ { auto r = opt::make_option(std::as_const(t)); vc_assert(std::is_same_v<decltype(r), O> && is_val(r, s.v) && is_val(s.o, s.v), "make_option of a const l-value copies it"); } s.destroy(); })
        if constexpr (!opt::is_option_v<T>) ALT({ { opt::option r(t); vc_assert(std::is_same_v<decltype(r), O> && is_val(r, s.v), "deduction keeps the element type"); opt::option q{std::as_const(t)}; vc_assert(std::is_same_v<decltype(q), O> && is_val(q, s.v), "deduction from const keeps the element type"); } s.destroy(); })
        ALT({ { opt::option r(s.o); vc_assert(std::is_same_v<decltype(r), O> && is_val(r, s.v), "deduction from an option copies it"); auto q = opt::make_option(s.o); vc_assert(std::is_same_v<decltype(q), opt::option<O>> && q.has_value() && is_val(q.get(), s.v), "make_option of an option nests it"); } s.destroy(); })
    }
    ALT({ { auto r = opt::make_option(std::move(t)); vc_assert(std::is_same_v<decltype(r), O> && is_val(r, s.v) && is_val(s.o, left_mc<T>(s.v)), "make_option of an r-value moves it"); } s.destroy(); })
    if constexpr (!opt::is_option_v<T>) ALT({ { opt::option r(std::move(t)); vc_assert(std::is_same_v<decltype(r), O> && is_val(r, s.v), "deduction from an r-value keeps the element type"); } s.destroy(); })
    s.destroy();
}
template<class T>
void make_args() {                                                  // in-place construction from arguments
    const V x{vc_nondet_u32()}, y{vc_nondet_u32()};
    vc_cover("reached");
    g_ctor = g_copy = g_move = 0;
    { auto r = opt::make_option<T>(x); vc_assert(std::is_same_v<decltype(r), opt::option<T>> && is_val(r, x.x) && how_of(r) == BUILT, "make_option<T>(a) constructs in place"); }
    { auto r = opt::make_option<T>(x, y); vc_assert(is_val(r, u32(vc_uf(UF_CTOR2, x.x, y.x))) && how_of(r) == BUILT2, "make_option<T>(a, b) passes the arguments in order"); }
    vc_assert(g_copy == 0 && g_move == 0, "in-place construction neither copies nor moves");
    { opt::option<T> r(std::in_place, x, y); vc_assert(is_val(r, u32(vc_uf(UF_CTOR2, x.x, y.x))) && how_of(r) == BUILT2, "option(in_place, a, b)"); }
    { opt::option<T> r = x; vc_assert(is_val(r, x.x), "conversion from a value"); }
    { opt::option<T> r; r = x; vc_assert(is_val(r, x.x), "assignment from a convertible value"); }
    if constexpr (std::is_constructible_v<T, W>) {
        const W w{x.x};
        { opt::option<T> r(w); vc_assert(is_val(r, u32(vc_uf(UF_CONV, x.x, 0))), "explicit conversion from a value"); }
        { auto r = opt::make_option<T>(w); vc_assert(is_val(r, u32(vc_uf(UF_CONV, x.x, 0))), "make_option<T> of an explicitly convertible value"); }
        { auto r = opt::make_option<T>({x, y}, y); vc_assert(is_val(r, u32(vc_uf(UF_LIST, x.x + 2, y.x))) && how_of(r) == BUILTL, "make_option<T>({...}, a)"); }
        { opt::option<T> r(std::in_place, {x, y}, y); vc_assert(is_val(r, u32(vc_uf(UF_LIST, x.x + 2, y.x))) && how_of(r) == BUILTL, "option(in_place, {...}, a)"); }
    }
}
// every factory passes its arguments on to the constructor of the element with their value categories
void forwarding() {
    using O = opt::option<Fwd>;
    vc_cover("reached");
    const std::initializer_list<Arg> l{Arg{1}, Arg{2}};
    forwards1(0, "make_option<T>(a) forwards", [](auto&& a) { return opt::make_option<Fwd>(FWD(a)).get(); });
    forwards2("make_option<T>(a, b) forwards", [](auto&& a, auto&& b) { return opt::make_option<Fwd>(FWD(a), FWD(b)).get(); });
    forwards_list("make_option<T>({...}, a) forwards", [&](auto&& b) { return opt::make_option<Fwd>(l, FWD(b)).get(); });
    forwards1(0, "option(a) forwards", [](auto&& a) { O o(FWD(a)); return o.get(); });
    forwards2("option(a, b) forwards", [](auto&& a, auto&& b) { O o(FWD(a), FWD(b)); return o.get(); });
    { Arg a{1}; O o(std::as_const(a), std::move(a), a); vc_assert(o->c1 == 2 && o->c2 == 3 && o->n == 2 + 16, "option(a, b, c) forwards"); O q(a, std::as_const(a), std::move(a)); vc_assert(q->c1 == 1 && q->c2 == 2 && q->n == 2 + 48, "option(a, b, c) forwards"); }
    forwards1(0, "option(in_place, a) forwards", [](auto&& a) { O o(std::in_place, FWD(a)); return o.get(); });
    forwards2("option(in_place, a, b) forwards", [](auto&& a, auto&& b) { O o(std::in_place, FWD(a), FWD(b)); return o.get(); });
    forwards_list("option(in_place, {...}, a) forwards", [&](auto&& b) { O o(std::in_place, l, FWD(b)); return o.get(); });
    Arg a{7};
    { opt::option<Arg> s{a}; vc_assert(O(s)->c1 <= 2 && O(std::as_const(s))->c1 == 2 && O(std::move(s))->c1 == 3, "construction from an option passes its value on with the value category of the option"); }
    { opt::option<Arg> s{a}; vc_assert(opt::option_cast<Fwd>(s)->c1 == 2 && opt::option_cast<Fwd>(std::move(s))->c1 == 3, "option_cast passes the value on with the value category of the option"); }
}
template<class T, class From>
void cast_user() {                                                  // option_cast through T's own conversion
    const u32 x = vc_nondet_u32();
    const bool h = vc_nondet_bool();
    opt::option<From> s;
    if (h) { s.emplace(From{x}); }
    const u32 e = std::is_same_v<From, V> ? x : u32(vc_uf(UF_CONV, x, 0));
    vc_cover("reached");
    g_ctor = 0;
    { auto r = opt::option_cast<T>(s); vc_assert(std::is_same_v<decltype(r), opt::option<T>> && is_state(r, h, e), "option_cast holds the converted value iff engaged"); vc_assert(s.has_value() == h && (!h || s->x == x), "option_cast leaves an l-value unchanged"); if (!h) vc_assert(g_ctor == 0, "option_cast of an empty option converts nothing"); }
    { auto r = opt::option_cast<T>(std::as_const(s)); vc_assert(is_state(r, h, e), "option_cast of a const option"); }
    { auto r = opt::option_cast<T>(std::move(s)); vc_assert(std::is_same_v<decltype(r), opt::option<T>> && is_state(r, h, e), "option_cast of an r-value holds the converted value iff engaged"); if (!h) vc_assert(g_ctor == 0, "option_cast of an empty option converts nothing"); }
}
template<class T>
void cast_same() {                                                  // option_cast to the same type is a copy or a move
    Arb<T> s;
    vc_cover("reached");
    if constexpr (std::is_copy_constructible_v<T>) {
        ALT({ { auto r = opt::option_cast<T>(s.o); vc_assert(is_state(r, s.h, s.v) && is_state(s.o, s.h, s.v), "option_cast<T> of option<T> copies"); } s.destroy(); })
    }
    ALT({ { auto r = opt::option_cast<T>(std::move(s.o)); vc_assert(is_state(r, s.h, s.v) && s.o.has_value() == s.h, "option_cast<T> of option<T>&& moves"); } s.destroy(); })
    s.destroy();
}
template<class To, class From>
void cast_arith() {
    Arb<From> s;
    vc_cover("reached");
    const To e = s.h ? static_cast<To>(s.o.get_unchecked()) : To{};
    auto r = opt::option_cast<To>(s.o);
    vc_assert(std::is_same_v<decltype(r), opt::option<To>> && is_state(r, s.h, M<To>::val(e)), "option_cast converts arithmetically");
    vc_assert(is_state(s.o, s.h, s.v), "option_cast leaves an l-value unchanged");
    vc_assert(is_state(opt::option_cast<To>(std::as_const(s.o)), s.h, M<To>::val(e)), "option_cast of const converts arithmetically");
    vc_assert(is_state(opt::option_cast<To>(std::move(s.o)), s.h, M<To>::val(e)), "option_cast && converts arithmetically");
}
// as_option reinterprets a raw value: engaged unless the value is one of the reserved representations
template<class T, class Reserved, class Same>
void as_option_of(Reserved reserved, Same same) {
    alignas(T) unsigned char buf[sizeof(T)];
    vc_havoc(buf, sizeof(buf));
    const T& x = *reinterpret_cast<const T*>(buf);
    vc_cover("reached");
    const bool r = reserved(x);
    if (r) { vc_cover("reserved"); }
    vc_snap(&x, sizeof(x), 1);
    auto o = opt::as_option(x);
    vc_assert(std::is_same_v<decltype(o), opt::option<T>>, "as_option keeps the type");
    vc_assert(o.has_value() == !r, "as_option is engaged iff the value is not reserved");
    vc_assert(vc_same(&x, sizeof(x), 1), "as_option leaves its argument unchanged");
    if (!r) { vc_assert(same(o.get(), x), "as_option holds exactly the value"); }
}
// as_option keeps every bit of its argument, reserved representation or not
template<class T>
void as_option_bits(void (*legit)(void*)) {
    using Tr = opt::option_traits<T>;
    alignas(T) unsigned char buf[sizeof(T)];
    vc_havoc(buf, sizeof(buf));
    T& x = *reinterpret_cast<T*>(buf);
    vc_cover("reached");
    bool engaged = true;
    const bool reserved = !std::is_same_v<T, bool> && vc_nondet_bool();   // reading a reserved bool is undefined
    if (reserved) {
        const u64 k = vc_nondet_u64();
        vc_assume(k < Tr::max_level);
        Tr::set_level(&x, k);
        engaged = k != 0;
    } else { legit(buf); }
    vc_snap(buf, sizeof(T), 1);
    const auto o = opt::as_option(x);
    vc_assert(std::is_same_v<decltype(o), const opt::option<T>>, "as_option keeps the type");
    vc_assert(vc_same(buf, sizeof(T), 1), "as_option leaves its argument unchanged");
    vc_assert(vc_same(std::addressof(o.get_unchecked()), sizeof(T), 1), "as_option keeps the underlying representation");
    if (!reserved || !engaged) { vc_assert(o.has_value() == engaged, "as_option is engaged unless its argument is the empty representation"); }
}
enum class E8 : u8 { a, b, SENTINEL = 200 };
struct S32 { int x; };
template<> struct opt::sentinel_option_traits<S32> { static constexpr S32 sentinel_value{100}; };
constexpr bool operator==(const S32& a, const S32& b) noexcept { return a.x == b.x; }

#if PART == 1
VC_SPEC(C20_forwarding) { forwarding(); }
#define I1(NAME, ...) VC_SPEC(C20_value_##NAME) { make_value<__VA_ARGS__>(); }
FAM_ALL(I1) FAM_OPT(I1)
#define I2(NAME, ...) VC_SPEC(C20_args_##NAME) { make_args<__VA_ARGS__>(); }
FAM_ABS(I2) FAM_TRIV(I2) I2(mo, Abs<1, 0, true, false>) I2(mo_t1, Abs<1, 1, true, false>)
#else
#define I6(NAME, ...) VC_SPEC(C20_nested_##NAME) { make_nested<__VA_ARGS__>(); }
#define I3(NAME, ...) VC_SPEC(C20_cast_##NAME) { cast_user<__VA_ARGS__, V>(); } VC_SPEC(C20_ecast_##NAME) { cast_user<__VA_ARGS__, W>(); }
FAM_ABS(I3) FAM_TRIV(I3)
VC_SPEC(C20_cast_mo) { cast_user<Abs<1, 0, true, false>, V>(); }
#define I4(NAME, ...) VC_SPEC(C20_same_##NAME) { cast_same<__VA_ARGS__>(); }
FAM_ALL(I4) FAM_OPT(I4)
VC_SPEC(C20_cast_u64_u32) { cast_arith<u64, u32>(); }
VC_SPEC(C20_cast_u8_u32) { cast_arith<u8, u32>(); }
VC_SPEC(C20_cast_s64_s8) { cast_arith<std::int64_t, std::int8_t>(); }
VC_SPEC(C20_cast_bool_u32) { cast_arith<bool, u32>(); }
VC_SPEC(C20_cast_u32_bool) { cast_arith<u32, bool>(); }
VC_SPEC(C20_cast_bool_ptr) { cast_arith<bool, u32*>(); }
VC_SPEC(C20_cast_u16_s32) { cast_arith<u16, std::int32_t>(); }
VC_SPEC(C20_cast_bool_option) {                                     // converting an option to bool as a value is not its engagement
    Arb<u32> s;
    vc_cover("reached");
    opt::option<bool> b = opt::option_cast<bool>(s.o);
    vc_assert(is_state(b, s.h, s.v != 0), "option_cast<bool> converts the value, not the engagement");
}
VC_SPEC(C20_make_plain) {
    const u32 a = vc_nondet_u32(), b = vc_nondet_u32();
    vc_cover("reached");
    { auto r = opt::make_option<Pod>(a, b); vc_assert(r.has_value() && r->a == a && r->b == b, "aggregates are built from their members in order"); }
    { auto r = opt::make_option<u32>(); vc_assert(r.has_value() && *r == 0, "make_option<T>() value-initialises"); }
    { auto r = opt::make_option<Pod>(); vc_assert(r.has_value() && r->a == 0 && r->b == 0, "make_option<T>() value-initialises an aggregate"); }
    { auto r = opt::make_option<u64>(a); vc_assert(std::is_same_v<decltype(r), opt::option<u64>> && *r == a, "make_option<T>(u) converts"); }
    { auto r = opt::make_option<u8>(u8(a)); vc_assert(*r == u8(a), "make_option<u8>"); }
    { opt::option<u64> r = a; vc_assert(*r == a, "conversion from a value"); r = u16(b); vc_assert(*r == u16(b), "assignment from a value converts"); }
    { opt::option<std::pair<u32, u8>> r(std::in_place, a, u8(b)); vc_assert(r->first == a && r->second == u8(b), "pairs are built in order"); }
    { u32 arr[2] = {a, b}; auto r = opt::make_option(arr); vc_assert(std::is_same_v<decltype(r), opt::option<u32*>> && *r == arr, "make_option decays its argument"); }
    { const auto r = opt::make_option(opt::none == opt::option<u32>{}); vc_assert(std::is_same_v<decltype(r), const opt::option<bool>> && *r, "make_option of bool"); }
}
// make_option<option<T>>: the arguments construct the inner option in place; the result always holds an inner option
template<class T>
void make_nested() {
    using O = opt::option<T>;
    Arb<T> s;
    const V x{vc_nondet_u32()};
    vc_cover("reached");
#define NESTED(R, IN, WHAT) vc_assert(std::is_same_v<decltype(R), opt::option<O>> && R.has_value(), WHAT ": the outer option is engaged"); vc_assert(IN, WHAT ": the inner option is built from the arguments");
    ALT({ { auto r = opt::make_option<O>(); NESTED(r, !r.get().has_value(), "make_option<option<T>>()") } s.destroy(); })
    ALT({ { auto r = opt::make_option<O>(opt::none); NESTED(r, !r.get().has_value(), "make_option<option<T>>(none)") } s.destroy(); })
    ALT({ { auto r = opt::make_option<O>(std::move(s.o)); NESTED(r, is_state(r.get(), s.h, s.v), "make_option<option<T>>(option<T>&&)") } s.destroy(); })
    ALT({ { auto r = opt::make_option<O>(M<T>::make(x.x)); NESTED(r, is_val(r.get(), M<T>::lift(x.x)), "make_option<option<T>>(T)") } s.destroy(); })
    ALT({ { auto r = opt::make_option<O>(std::in_place, M<T>::make(x.x)); NESTED(r, is_val(r.get(), M<T>::lift(x.x)), "make_option<option<T>>(in_place, T)") } s.destroy(); })
    ALT({ { auto r = opt::make_option(std::move(s.o)); NESTED(r, is_state(r.get(), s.h, s.v), "make_option(option<T>&&)") } s.destroy(); })
    ALT({ { opt::option<O> r(std::in_place, std::move(s.o)); NESTED(r, is_state(r.get(), s.h, s.v), "option(in_place, option<T>&&)") } s.destroy(); })
    if constexpr (std::is_copy_constructible_v<T>) {
        ALT({ { auto r = opt::make_option<O>(s.o); NESTED(r, is_state(r.get(), s.h, s.v) && is_state(s.o, s.h, s.v), "make_option<option<T>>(option<T>&)") } s.destroy(); })
        ALT({ { auto r = opt::make_option<O>(std::as_const(s.o)); NESTED(r, is_state(r.get(), s.h, s.v) && is_state(s.o, s.h, s.v), "make_option<option<T>>(const option<T>&)") } s.destroy(); })
    }
    s.destroy();
}
VC_SPEC(C20_as_bool) {
    const bool b = vc_nondet_bool();
    vc_cover("reached");
    vc_assert(is_val(opt::as_option(b), u64(b)), "as_option of a bool holds it");
}
VC_SPEC(C20_as_enum) { as_option_of<E8>([](const E8& e) { return e == E8::SENTINEL; }, [](E8 a, E8 b) { return a == b; }); }
VC_SPEC(C20_as_sentinel) { as_option_of<S32>([](const S32& e) { return e.x == 100; }, [](const S32& a, const S32& b) { return a.x == b.x; }); }
#define I5(NAME, ...) VC_SPEC(C20_asbits_##NAME) { as_option_bits<__VA_ARGS__>([](void* p) { Legit<__VA_ARGS__>::make(p); }); }
I5(bool, bool) I5(ptr, u32*) I5(pptr, u8**) I5(rw, std::reference_wrapper<u32>) I5(double, double) I5(float, float) I5(sv, std::string_view) I5(mptr, u32 Pod::*)
VC_SPEC(C20_as_triv) { as_option_of<Triv<0, 1>>([](const Triv<0, 1>& e) { return e.lvl == 0; }, [](const Triv<0, 1>& a, const Triv<0, 1>& b) { return a.v == b.v && a.how == b.how && a.lvl == b.lvl; }); }
VC_SPEC(C20_as_ptr) {
    u32* const p = static_cast<u32*>(vc_nondet_ptr());
    M<u32*>::assume_valid(p);
    vc_cover("reached");
    vc_assert(is_val(opt::as_option(p), M<u32*>::val(p)), "as_option of a legitimate pointer holds it");
}
FAM_ALL(I6) FAM_OPT(I6)
#endif
