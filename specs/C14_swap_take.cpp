// C14: swap and take exchange state without loss
#include "abs.hpp"
#include <utility>

inline u32 g_calls = 0;
template<class T>
void swaps() {
    Arb<T> a, b;
    vc_cover("reached");
    const u32 l0 = M<T>::tracked ? live(1) : 0;
#define SWAPPED vc_assert(is_state(a.o, b.h, b.v), "the left option gets the right one's state and value"); vc_assert(is_state(b.o, a.h, a.v), "the right option gets the left one's state and value"); if (M<T>::tracked) vc_assert(live(1) == l0, "no object is duplicated or lost"); NOCOPY("swap"); a.destroy(); b.destroy();
    ALT({ a.o.swap(b.o); SWAPPED })
    ALT({ opt::swap(a.o, b.o); SWAPPED })
    ALT({ using std::swap; swap(a.o, b.o); SWAPPED })
    ALT({ a.o.swap(a.o); vc_assert(is_state(a.o, a.h, a.v), "swapping an option with itself changes nothing"); a.destroy(); b.destroy(); })
    ALT({ opt::swap(a.o, a.o); vc_assert(is_state(a.o, a.h, a.v), "swapping an option with itself changes nothing"); a.destroy(); b.destroy(); })
    ALT({ a.o.swap(b.o); a.o.swap(b.o); vc_assert(is_state(a.o, a.h, a.v) && is_state(b.o, b.h, b.v), "swapping twice restores both"); a.destroy(); b.destroy(); })
    a.destroy(); b.destroy();
}
template<class T>
void takes() {
    Arb<T> a;
    vc_cover("reached");
    const u32 l0 = M<T>::tracked ? live(1) : 0;
    const T* const p = a.o.ptr_or_null();
    g_calls = 0;
    const bool yes = a.h && (vc_uf(UF_PRED, a.v, 0) & 1) != 0;
#define LIVE if (M<T>::tracked) vc_assert(live(1) == l0, "no object is duplicated or lost"); if constexpr (!std::is_const_v<T>) { NOCOPY("take"); }
    if constexpr (std::is_copy_constructible_v<T>) {
        ALT({ { opt::option<T> r(a.o.take_if([&](T t) -> bool { ++g_calls; return (vc_uf(UF_PRED, M<T>::val(t), 0) & 1) != 0; })); vc_assert(g_calls == (a.h ? 1u : 0u), "the predicate is called exactly when engaged"); vc_assert(is_state(r, yes, a.v), "take_if with a by-value predicate returns the value iff the predicate holds"); vc_assert(is_state(a.o, a.h && !yes, a.v), "take_if with a by-value predicate changes nothing when it fails"); } a.destroy(); })
    }
    ALT({ { opt::option<T> r(a.o.take()); vc_assert(is_state(r, a.h, a.v), "take returns the old state"); vc_assert(!a.o.has_value(), "take leaves the option empty"); if constexpr (Ops<T>::mc) { if (a.h) vc_assert(how_of(r) == MOVED, "take moves the value out"); } LIVE } a.destroy(); })
    ALT({ { opt::option<T> r(std::move(a.o).take()); vc_assert(is_state(r, a.h, a.v) && !a.o.has_value(), "take on an r-value"); LIVE } a.destroy(); })
    ALT({ { opt::option<T> r(a.o.take()); opt::option<T> q(a.o.take()); vc_assert(is_state(r, a.h, a.v) && !q.has_value() && !a.o.has_value(), "a second take yields nothing"); LIVE } a.destroy(); })
    auto f = [&](T& t) -> bool { ++g_calls; vc_assert(std::addressof(t) == p, "the predicate gets the contained object"); return (vc_uf(UF_PRED, M<T>::val(t), 0) & 1) != 0; };
    ALT({ { opt::option<T> r(a.o.take_if(f)); vc_assert(g_calls == (a.h ? 1u : 0u), "the predicate is called exactly when engaged"); vc_assert(is_state(r, yes, a.v), "take_if returns the value iff the predicate holds"); vc_assert(is_state(a.o, a.h && !yes, a.v), "take_if empties the option iff the predicate holds"); LIVE } a.destroy(); })
    ALT({ { opt::option<T> r(a.o.take_if([](const T&) { return false; })); vc_assert(!r.has_value() && is_state(a.o, a.h, a.v), "take_if(false) changes nothing"); LIVE } a.destroy(); })
    ALT({ { opt::option<T> r(a.o.take_if([](const T&) { return true; })); vc_assert(is_state(r, a.h, a.v) && !a.o.has_value(), "take_if(true) is take"); LIVE } a.destroy(); })
    a.destroy();
}
// no element is lost or duplicated when a move throws half way
template<class T>
void throwing() {
    Arb<T> a, b;
    vc_cover("reached");
    g_thrown = 0;
    const u32 which = vc_nondet_u32() % 4;
    u32 got = 0;
    bool t = false;
    g_throw = true;
    try {
        switch (which) {
        case 0: a.o.swap(b.o); break;
        case 1: opt::swap(a.o, b.o); break;
        case 2: { auto r = a.o.take(); g_throw = false; got = r.has_value(); vc_assert(is_state(r, a.h, a.v), "take returns the old state"); break; }
        default: { auto r = a.o.take_if([](const T&) { return true; }); g_throw = false; got = r.has_value(); vc_assert(is_state(r, a.h, a.v), "take_if(true) is take"); break; }
        }
    } catch (const Exc&) { t = true; }
    g_throw = false;
    if (t) { vc_cover("thrown"); } else { vc_cover("completed"); }
    if (t) {
        vc_assert(a.o.has_value() == a.h && b.o.has_value() == b.h, "a failed swap or take loses no element and duplicates none");
        if (which >= 2 || a.h != b.h) { vc_assert(is_state(a.o, a.h, a.v) && is_state(b.o, b.h, b.v), "a failed exchange with an empty option changes nothing"); }
    } else if (which < 2) {
        vc_assert(is_state(a.o, b.h, b.v) && is_state(b.o, a.h, a.v), "the states are exchanged");
    } else {
        vc_assert(!a.o.has_value() && is_state(b.o, b.h, b.v) && got == (a.h ? 1u : 0u), "the value is taken");
    }
    a.destroy();
    b.destroy();
    vc_assert(live(1) == 0, "no object is duplicated or lost");
}
VC_SPEC(C14_throwing) { throwing<Abs<1, 0, false>>(); }
VC_SPEC(C14_throwing_t1) { throwing<Abs<1, 1, false>>(); }
VC_SPEC(C14_throwing_mo) { throwing<Abs<1, 0, false, false>>(); }
VC_SPEC(C14_throwing_mo_t2) { throwing<Abs<1, 2, false, false>>(); }
// the predicate may change the value; the value taken is the changed one
VC_SPEC(C14_take_if_mutating) {
    Arb<u32> a;
    const bool yes = vc_nondet_bool();
    const u32 n = vc_nondet_u32();
    vc_cover("reached");
    auto r = a.o.take_if([&](u32& t) { t = n; return yes; });
    vc_assert(is_state(r, a.h && yes, n), "the value as the predicate left it is taken");
    vc_assert(is_state(a.o, a.h && !yes, n), "or stays");
}
VC_SPEC(C14_take_if_truth) {                                        // the predicate's answer need only convert to bool
    Arb<u32> a;
    const u32 b = vc_nondet_u32();
    vc_cover("reached");
    ALT({ auto r = a.o.take_if([&](u32&) { return Truth{b}; }); vc_assert(is_state(r, a.h && b != 0, a.v) && is_state(a.o, a.h && b == 0, a.v), "an explicitly convertible answer decides by its truth"); })
    ALT({ auto r = a.o.take_if([&](u32&) { return b; }); vc_assert(is_state(r, a.h && b != 0, a.v) && is_state(a.o, a.h && b == 0, a.v), "any non-zero answer means true"); })
}
VC_SPEC(C14_take_if_reentrant) {                                    // the predicate may change the option itself
    Arb<u32> a;
    const bool yes = vc_nondet_bool(), reset = vc_nondet_bool();
    const u32 n = vc_nondet_u32();
    vc_cover("reached");
    opt::option<u32>& o = a.o;
    u32 calls = 0;
    auto r = o.take_if([&](u32&) { ++calls; if (reset) { o.reset(); } else { o = n; } return yes; });
    vc_assert(calls == (a.h ? 1u : 0u), "the predicate is called once, exactly when engaged");
    vc_assert(is_state(r, a.h && yes && !reset, n), "what is taken is what the option holds when the predicate has answered");
    vc_assert(is_state(o, a.h && !yes && !reset, n), "nothing is left behind or invented");
}
// element types with a user-provided swap: it is used when both are engaged
struct Sw { u32 v; };
inline u32 g_swaps = 0;
inline void swap(Sw& a, Sw& b) noexcept { ++g_swaps; const u32 t = a.v; a.v = b.v; b.v = t; }
VC_SPEC(C14_user_swap) {
    const bool ha = vc_nondet_bool(), hb = vc_nondet_bool();
    const u32 x = vc_nondet_u32(), y = vc_nondet_u32();
    opt::option<Sw> a, b;
    if (ha) { a = Sw{x}; }
    if (hb) { b = Sw{y}; }
    vc_cover("reached");
    if (vc_nondet_bool()) { a.swap(b); } else { opt::swap(a, b); }
    vc_assert(a.has_value() == hb && b.has_value() == ha, "the states are exchanged");
    if (hb) { vc_assert(a->v == y, "values are exchanged"); }
    if (ha) { vc_assert(b->v == x, "values are exchanged"); }
    vc_assert(g_swaps == (ha && hb ? 1u : 0u), "T's swap is used when both hold values");
}
VC_SPEC(C14_reference) {
    u32 x = vc_nondet_u32(), y = vc_nondet_u32();
    const u32 x0 = x, y0 = y;
    opt::option<u32&> a, b;
    const bool ha = vc_nondet_bool(), hb = vc_nondet_bool();
    if (ha) { a = x; }
    if (hb) { b = y; }
    u32* const pa = ha ? &x : nullptr;
    u32* const pb = hb ? &y : nullptr;
    vc_cover("reached");
    if (vc_nondet_bool()) {
        a.swap(b);
        vc_assert(a.ptr_or_null() == pb && b.ptr_or_null() == pa && a.has_value() == hb && b.has_value() == ha, "swap exchanges what the options refer to");
    } else if (vc_nondet_bool()) {
        auto r = a.take();
        vc_assert(r.ptr_or_null() == pa && !a.has_value(), "take moves the reference out");
    } else {
        const bool yes = vc_nondet_bool();
        auto r = a.take_if([&](u32& t) { vc_assert(&t == &x, "the predicate gets the referent"); return yes; });
        vc_assert(r.ptr_or_null() == (yes ? pa : nullptr) && a.ptr_or_null() == (yes ? nullptr : pa), "take_if moves the reference out iff the predicate holds");
    }
    vc_assert(x == x0 && y == y0, "referents are not touched");
}
VC_SPEC(C14_nested) {
    Arb<u32> i, j;
    const bool ha = vc_nondet_bool(), hb = vc_nondet_bool();
    opt::option<opt::option<u32>> a, b;
    if (ha) { a.emplace(i.o); }
    if (hb) { b.emplace(j.o); }
    vc_cover("reached");
    if (vc_nondet_bool()) {
        a.swap(b);
        vc_assert(a.has_value() == hb && b.has_value() == ha, "outer states are exchanged");
        if (hb) { vc_assert(is_state(a.get(), j.h, j.v), "inner states are exchanged"); }
        if (ha) { vc_assert(is_state(b.get(), i.h, i.v), "inner states are exchanged"); }
    } else {
        auto r = a.take();
        vc_assert(!a.has_value() && r.has_value() == ha, "take of a nested option");
        if (ha) { vc_assert(is_state(r.get(), i.h, i.v), "take keeps the inner state"); }
    }
}
#define I1(NAME, ...) VC_SPEC(C14_swap_##NAME) { swaps<__VA_ARGS__>(); } VC_SPEC(C14_take_##NAME) { takes<__VA_ARGS__>(); }
FAM_ALL(I1) FAM_OPT(I1)
#define IC(NAME, ...) VC_SPEC(C14_take_##NAME) { takes<__VA_ARGS__>(); }
FAM_CONST(IC)                                                       // a const element is taken by copying it
// options of two different types with a swap between them
struct SwL { u32 v; SwL(u32 x) : v(x) {} SwL(struct SwR&& o) noexcept; SwL(SwL&&) = default; SwL& operator=(SwL&&) = default; };
struct SwR { u32 v; SwR(u32 x) : v(x) {} SwR(SwL&& o) noexcept : v(o.v) {} SwR(SwR&&) = default; SwR& operator=(SwR&&) = default; };
inline SwL::SwL(SwR&& o) noexcept : v(o.v) {}
inline void swap(SwL& a, SwR& b) noexcept { ++g_swaps; const u32 t = a.v; a.v = b.v; b.v = t; }
inline void swap(SwR& b, SwL& a) noexcept { swap(a, b); }
VC_SPEC(C14_swap_mixed) {
    const bool ha = vc_nondet_bool(), hb = vc_nondet_bool();
    const u32 x = vc_nondet_u32(), y = vc_nondet_u32();
    opt::option<SwL> a;
    opt::option<SwR> b;
    if (ha) { a.emplace(x); }
    if (hb) { b.emplace(y); }
    vc_cover("reached");
    if (vc_nondet_bool()) { a.swap(b); } else if (vc_nondet_bool()) { opt::swap(a, b); } else { opt::swap(b, a); }
    vc_assert(a.has_value() == hb && b.has_value() == ha, "the states are exchanged");
    if (hb) { vc_assert(a->v == y, "values are exchanged"); }
    if (ha) { vc_assert(b->v == x, "values are exchanged"); }
}
