// C16: a throwing element operation never corrupts the option
// vc-part: -DPART=1
// vc-part: -DPART=2
// vc-part: -DPART=3
#include "abs.hpp"

// trivially destructible element whose construction and assignment may throw; ML reserved representations
template<u32 ML>
struct TT {
    u32 v;
    u8 lvl;
    void set(u32 x) noexcept { v = x; lvl = u8(ML); }
    TT(V x) { may_throw(this, sizeof(*this)); set(x.x); }
    TT(V x, V y) { may_throw(this, sizeof(*this)); set(u32(vc_uf(UF_CTOR2, x.x, y.x))); }
    TT(std::initializer_list<V> l, V y) { may_throw(this, sizeof(*this)); set(u32(vc_uf(UF_LIST, l.begin()[0].x, y.x))); }
    TT(const TT& o) { may_throw(this, sizeof(*this)); set(o.v); }
    TT(TT&& o) { may_throw(this, sizeof(*this)); set(o.v); }
    TT& operator=(const TT& o) { may_throw(); set(o.v); return *this; }
    TT& operator=(TT&& o) { may_throw(); set(o.v); return *this; }
    TT& operator=(V x) { may_throw(); set(x.x); return *this; }
    ~TT() = default;
};
// as above, trivial assignment (an in-place construction may be carried out as an assignment)
template<u32 ML>
struct TA {
    u32 v;
    u8 lvl;
    void set(u32 x) noexcept { v = x; lvl = u8(ML); }
    TA(V x) { may_throw(this, sizeof(*this)); set(x.x); }
    TA(V x, V y) { may_throw(this, sizeof(*this)); set(u32(vc_uf(UF_CTOR2, x.x, y.x))); }
    TA(std::initializer_list<V> l, V y) { may_throw(this, sizeof(*this)); set(u32(vc_uf(UF_LIST, l.begin()[0].x, y.x))); }
    TA(const TA&) = default;
    TA(TA&&) = default;
    TA& operator=(const TA&) = default;
    TA& operator=(TA&&) = default;
};
#define TRAITS(ML) template<> struct opt::option_traits<TT<ML>> { VC_TRAITS(TT<ML>, ML) }; template<> struct opt::option_traits<TA<ML>> { VC_TRAITS(TA<ML>, ML) };
TRAITS(1) TRAITS(2)
template<u32 ML> struct M<TT<ML>> : M_abs<TT<ML>> { static constexpr bool tracked = false; static void assume_valid(const TT<ML>& x) noexcept { vc_assume(x.lvl == ML); } static bool ok(const TT<ML>& x) noexcept { return x.lvl == ML; } };
template<u32 ML> struct M<TA<ML>> : M_abs<TA<ML>> { static constexpr bool tracked = false; static void assume_valid(const TA<ML>& x) noexcept { vc_assume(x.lvl == ML); } static bool ok(const TA<ML>& x) noexcept { return x.lvl == ML; } };

template<class T> u32 eng(const opt::option<T>& o) noexcept { return o.has_value() ? 1 : 0; }
template<class T> void well(const opt::option<T>& o) noexcept {
    vc_assert(o.has_value() == (o != opt::none), "the option answers its queries consistently");
    if (o.has_value()) { vc_assert(M<T>::ok(o.get_unchecked()), "an engaged option holds a live value"); }
}
// run one operation with throwing element operations; the exception, if any, arrives unchanged
template<class F>
bool attempt(F f) {
    g_thrown = 0;
    g_throw = true;
    bool thrown = false;
    try { f(); } catch (const Exc& e) {
        thrown = true;
        vc_assert(g_thrown == 1 && e.id == g_exc_id, "the exception propagates unchanged");
    } catch (...) {
        vc_assert(false, "the exception propagates unchanged");
    }
    g_throw = false;
    vc_assert(thrown == (g_thrown != 0), "an exception is neither swallowed nor invented");
    return thrown;
}
// the option can be queried, emptied, refilled and destroyed without leak or double destruction
template<class T>
void usable(opt::option<T>& o, u32 others = 0) {
    well(o);
    if constexpr (M<T>::tracked) { vc_assert(live(1) == eng(o) + others, "live objects match the engaged options"); }
    if (g_thrown == 0) { return; }                                  // the non-throwing behaviour is C01, C03
    if (vc_nondet_bool()) { o.reset(); vc_assert(!o.has_value(), "it can be reset"); }
    else if (vc_nondet_bool()) { o.emplace(V{7}); vc_assert(is_val(o, 7), "it can be refilled"); }
    else if (vc_nondet_bool()) { o = V{9}; vc_assert(is_val(o, 9), "it can be reassigned"); }
    if constexpr (M<T>::tracked) { vc_assert(live(1) == eng(o) + others, "live objects match the engaged options"); }
}
#define DONE if constexpr (M<T>::tracked) { vc_assert(live(1) == 0, "no leak"); }

template<class T>
void mutators() {
    using O = opt::option<T>;
    Arb<T> s;
    O& o = s.o;
    const V x{vc_nondet_u32()}, y{vc_nondet_u32()};
    vc_cover("reached");
#define MUT(WHAT, OP, AFTER) ALT({ const bool t = attempt([&] { OP; }); if (t) { vc_cover(WHAT); } AFTER; usable(o); s.destroy(); DONE })
    MUT("emplace", o.emplace(x), vc_assert(o.has_value() == !t, "a failed emplace leaves the option empty"))
    MUT("emplace 2", o.emplace(x, y), vc_assert(o.has_value() == !t, "a failed emplace leaves the option empty"))
    if constexpr (std::is_constructible_v<T, std::initializer_list<V>, V>) MUT("emplace list", (o.emplace(std::initializer_list<V>{x, y}, y)), vc_assert(o.has_value() == !t, "a failed emplace leaves the option empty"))
    MUT("try_emplace", o.try_emplace(x), vc_assert(o.has_value() == (s.h || !t), "a failed try_emplace leaves an empty option empty"); if (s.h) vc_assert(!t && is_val(o, s.v), "try_emplace keeps the value"))
    MUT("assign value", o = x, vc_assert(o.has_value() == (s.h || !t), "a failed assignment keeps an empty option empty and an engaged one engaged"); if (!t) vc_assert(is_val(o, x.x), "assigned"))
    MUT("or fill", (o |= x), vc_assert(o.has_value() == (s.h || !t), "a failed |= leaves an empty option empty"))
    ALT({ bool t; { t = attempt([&] { O n(x); vc_assert(is_val(n, x.x), "constructed"); }); } vc_assert(is_state(o, s.h, s.v), "constructing another option changes nothing"); usable(o); s.destroy(); DONE })
    ALT({ attempt([&] { O n(std::in_place, x, y); (void)n; }); usable(o); s.destroy(); DONE })
    ALT({ attempt([&] { auto n = opt::make_option<T>(x, y); (void)n; }); usable(o); s.destroy(); DONE })
    ALT({ attempt([&] { T v(x); O n(std::move(v)); O m; m = std::move(*n); well(n); well(m); }); usable(o); s.destroy(); DONE })
    usable(o);
    s.destroy();
    DONE
}
template<class T>
void pairs() {
    using O = opt::option<T>;
    Arb<T> s, q;
    O& o = s.o;
    O& p = q.o;
    vc_cover("reached");
    const u32 two = eng(p);
#define MOV(WHAT, OP, AFTER) ALT({ const bool t = attempt([&] { OP; }); if (t) { vc_cover(WHAT); } well(p); well(o); AFTER; usable(o, eng(p)); usable(p, eng(o)); s.destroy(); q.destroy(); DONE })
#define KEEPS vc_assert(p.has_value() == q.h, "the source stays engaged iff it was")
    MOV("move assignment", o = std::move(p), KEEPS; vc_assert(o.has_value() == (t ? s.h : q.h), "a failed assignment keeps the target engaged iff it was"))
    MOV("move construction", O n(std::move(p)); well(n), KEEPS; vc_assert(is_state(o, s.h, s.v), "the other option is unchanged"))
#define SWAPS if (!t) { vc_assert(is_state(o, q.h, q.v) && is_state(p, s.h, s.v), "swapped"); } else { vc_assert(o.has_value() == s.h && p.has_value() == q.h, "a failed swap loses no element and duplicates none"); if (s.h != q.h) { vc_assert(is_state(o, s.h, s.v) && is_state(p, q.h, q.v), "a failed swap with an empty option changes nothing"); } }
    MOV("swap", o.swap(p), SWAPS)
    MOV("free swap", opt::swap(o, p), SWAPS)
    MOV("self swap", o.swap(o), if (!t) vc_assert(is_state(o, s.h, s.v), "swapping an option with itself changes nothing"); vc_assert(o.has_value() == s.h && is_state(p, q.h, q.v), "a failed swap loses no element"))
    MOV("take", auto r = o.take(); well(r); vc_assert(is_state(r, s.h, s.v), "taken"), vc_assert(t ? is_state(o, s.h, s.v) : !o.has_value(), "a failed take leaves the value where it is"); vc_assert(is_state(p, q.h, q.v), "the other option is unchanged"))
    MOV("or", auto r = std::move(o) | std::move(p); well(r), KEEPS; vc_assert(o.has_value() == s.h, "the source stays engaged iff it was"))
    MOV("and", auto r = std::move(o) & std::move(p); well(r), KEEPS; vc_assert(o.has_value() == s.h, "the source stays engaged iff it was"))
    MOV("xor", auto r = std::move(o) ^ std::move(p); well(r), KEEPS; vc_assert(o.has_value() == s.h, "the source stays engaged iff it was"))
    MOV("or assign", o |= std::move(p), KEEPS; vc_assert(o.has_value() == (s.h || (q.h && !t)), "a failed |= leaves an empty option empty"))
    MOV("zip", auto r = opt::zip(std::move(o), std::move(p)); (void)r, KEEPS; vc_assert(o.has_value() == s.h, "the source stays engaged iff it was"))
    MOV("nest", opt::option<O> n(std::move(o)); opt::option<O> m; m = std::move(n); (void)m, vc_assert(o.has_value() == s.h, "the source stays engaged iff it was"))
    MOV("flatten", opt::option<O> n(std::move(o)); auto f = opt::flatten(std::move(n)); well(f), vc_assert(o.has_value() == s.h, "the source stays engaged iff it was"))
    if constexpr (std::is_copy_constructible_v<T>) {
#define SAME vc_assert(is_state(p, q.h, q.v), "a copied source is unchanged")
        MOV("copy assignment", o = p, SAME; vc_assert(o.has_value() == (t ? s.h : q.h), "a failed assignment keeps the target engaged iff it was"))
        MOV("copy construction", O n(p); well(n), SAME; vc_assert(is_state(o, s.h, s.v), "the other option is unchanged"))
        MOV("l-value or", auto r = o | p; well(r), SAME; vc_assert(is_state(o, s.h, s.v), "a copied source is unchanged"))
        MOV("l-value and", auto r = o & p; well(r), SAME; vc_assert(is_state(o, s.h, s.v), "a copied source is unchanged"))
        MOV("l-value xor", auto r = o ^ p; well(r), SAME; vc_assert(is_state(o, s.h, s.v), "a copied source is unchanged"))
        MOV("l-value or assign", o |= p, SAME; vc_assert(o.has_value() == (s.h || (q.h && !t)), "a failed |= leaves an empty option empty"))
        MOV("l-value zip", auto r = opt::zip(o, p); (void)r, SAME)
        MOV("nested copy", opt::option<O> n(o); opt::option<O> m; m = n; (void)m, vc_assert(is_state(o, s.h, s.v), "a copied source is unchanged"))
    }
    (void)two;
    usable(o, eng(p));
    s.destroy();
    q.destroy();
    DONE
}
// throwing user functions and converting sources
template<class T> void unzip_of(opt::option<T>& o) { opt::option<std::pair<T, u32>> z; if (o.has_value()) { z.emplace(*o, 3u); } auto u = opt::unzip(z); well(u.first); }
inline void fn_throws() { may_throw(); }
template<class T>
void functions() {
    using O = opt::option<T>;
    Arb<T> s;
    O& o = s.o;
    vc_cover("reached");
#define FUN(WHAT, OP) ALT({ const bool t = attempt([&] { OP; }); if (t) { vc_cover(WHAT); } vc_assert(is_state(o, s.h, s.v), "a throwing function leaves the option unchanged"); usable(o); s.destroy(); DONE })
#define FUNM(WHAT, OP, AFTER) ALT({ const bool t = attempt([&] { OP; }); if (t) { vc_cover(WHAT); } well(o); AFTER; usable(o); s.destroy(); DONE })
    FUN("map", (void)o.map([](const T&) { fn_throws(); return 1; }))
    FUN("const map", (void)std::as_const(o).map([](const T&) { fn_throws(); return 1; }))
    FUN("and_then", (void)o.and_then([](const T&) { fn_throws(); return opt::option<int>{}; }))
    FUN("inspect", o.inspect([](const T&) { fn_throws(); }))
    FUN("has_value_and", (void)o.has_value_and([](const T&) { fn_throws(); return true; }))
    FUN("map_or", (void)o.map_or(1, [](const T&) { fn_throws(); return 2; }))
    FUN("map_or_else", (void)o.map_or_else([] { fn_throws(); return 1; }, [](const T&) { fn_throws(); return 2; }))
    FUN("zip_with", (void)opt::zip_with([](const T&) { fn_throws(); return 1; }, o))
    FUN("for each", for (auto& x : o) { (void)x; fn_throws(); })
    FUN("take_if predicate", auto r = o.take_if([](T&) { fn_throws(); return false; }); (void)r)
    FUNM("emplace with a throwing argument", o.emplace((fn_throws(), V{1})), if (t && g_thrown && !s.h) vc_assert(!o.has_value(), "a failed emplace leaves an empty option empty"))
    FUNM("take_if", auto r = o.take_if([](T&) { fn_throws(); return vc_nondet_bool(); }); well(r), (void)t)
    FUNM("move filter", auto r = std::move(o).filter([](const T&) { fn_throws(); return vc_nondet_bool(); }); well(r), vc_assert(o.has_value() == s.h, "the source stays engaged iff it was"))
    FUNM("move map", auto r = std::move(o).map([](T&& x) { fn_throws(); return T(std::move(x)); }); well(r), vc_assert(o.has_value() == s.h, "the source stays engaged iff it was"))
    FUNM("value_or", (void)M<T>::ok(std::move(o).value_or(V{5})), vc_assert(o.has_value() == s.h, "the source stays engaged iff it was"))
    FUNM("or_else", auto r = std::move(o).or_else([]() -> O { fn_throws(); return {}; }); well(r), vc_assert(o.has_value() == s.h, "the source stays engaged iff it was"))
    if constexpr (std::is_copy_constructible_v<T>) {
        FUN("copy map", auto r = o.map([](const T& x) { return T(x); }); well(r))
        FUN("copy filter", auto r = o.filter([](const T&) { fn_throws(); return vc_nondet_bool(); }); well(r))
        FUN("copy value_or", (void)M<T>::ok(o.value_or(V{5})))
        FUN("copy or_else", auto r = o.or_else([]() -> O { fn_throws(); return O(V{4}); }); well(r))
        FUN("unzip", unzip_of(o))
    }
    ALT({ opt::option<V> v; if (vc_nondet_bool()) { v = V{vc_nondet_u32()}; } const bool t = attempt([&] { o = v; }); if (t) { vc_cover("converting assignment"); }
          well(o); vc_assert(o.has_value() == (t ? s.h : v.has_value()), "a failed converting assignment keeps the target engaged iff it was"); usable(o); s.destroy(); DONE })
    ALT({ opt::option<V> v; if (vc_nondet_bool()) { v = V{vc_nondet_u32()}; } attempt([&] { O n(v); well(n); vc_assert(n.has_value() == v.has_value(), "converted"); }); usable(o); s.destroy(); DONE })
    ALT({ opt::option<V> v; if (vc_nondet_bool()) { v = V{vc_nondet_u32()}; } attempt([&] { auto n = opt::option_cast<T>(v); well(n); }); usable(o); s.destroy(); DONE })
    usable(o);
    s.destroy();
    DONE
}
// throwing comparisons change nothing
struct CT { u32 v; };
bool cmp_ct(const CT& a, const CT& b) { may_throw(); return (vc_uf(UF_LT, a.v, b.v) & 1) != 0; }
bool operator==(const CT& a, const CT& b) { return cmp_ct(a, b); }
bool operator!=(const CT& a, const CT& b) { return cmp_ct(a, b); }
bool operator<(const CT& a, const CT& b) { return cmp_ct(a, b); }
bool operator<=(const CT& a, const CT& b) { return cmp_ct(a, b); }
bool operator>(const CT& a, const CT& b) { return cmp_ct(a, b); }
bool operator>=(const CT& a, const CT& b) { return cmp_ct(a, b); }
template<> struct M<CT> : M_abs<CT> { static constexpr bool tracked = false; static CT make(u32 x) { return CT{x}; } static void assume_valid(const CT&) noexcept {} static bool ok(const CT&) noexcept { return true; } };
#if PART == 1
VC_SPEC(C16_compare) {
    Arb<CT> a, b;
    const CT x{vc_nondet_u32()};
    vc_cover("reached");
    const u32 k = vc_nondet_u32() % 7;
    const bool t = attempt([&] {
        switch (k) {
        case 0: (void)(a.o == b.o); (void)(a.o == x); break;
        case 1: (void)(a.o != b.o); (void)(x != a.o); break;
        case 2: (void)(a.o < b.o); (void)(a.o < x); break;
        case 3: (void)(a.o <= b.o); (void)(x <= a.o); break;
        case 4: (void)(a.o > b.o); (void)(a.o > x); break;
        case 5: (void)(a.o >= b.o); (void)(x >= a.o); break;
        default: (void)(a.o == opt::none); (void)(opt::none < a.o); break;
        }
    });
    vc_assert(is_state(a.o, a.h, a.v) && is_state(b.o, b.h, b.v), "a throwing comparison changes nothing");
    vc_assert(!t || (a.h || b.h), "comparing empty options calls no element comparison");
    vc_assert(k != 6 || !t, "comparison with none calls no element comparison");
}
#endif
#define FAM(I) I(thr, Abs<1, 0, false>) I(thr_t1, Abs<1, 1, false>) I(thr_t3, Abs<1, 3, false>) I(mo_thr, Abs<1, 0, false, false>) I(mo_thr_t2, Abs<1, 2, false, false>) \
    I(tt, TT<0>) I(tt_t1, TT<1>) I(tt_t2, TT<2>) I(ta, TA<0>) I(ta_t1, TA<1>) I(ta_t2, TA<2>)
#if PART == 1
#define I1(NAME, ...) VC_SPEC(C16_mutators_##NAME) { mutators<__VA_ARGS__>(); }
#elif PART == 2
#define I1(NAME, ...) VC_SPEC(C16_pairs_##NAME) { pairs<__VA_ARGS__>(); }
#else
#define I1(NAME, ...) VC_SPEC(C16_functions_##NAME) { functions<__VA_ARGS__>(); }
#endif
FAM(I1)
