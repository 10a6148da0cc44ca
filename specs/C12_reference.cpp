// C12: reference options alias and rebind, never copy
#include "abs.hpp"
#include <functional>

struct Base1 { u32 a; };
struct Base2 { u32 b; };
struct Derived : Base1, Base2 { u32 c; };
struct Pin { u32 v; Pin(u32 x) : v(x) {} Pin(const Pin&) = delete; Pin& operator=(const Pin&) = delete; };  // not copyable: any copy would not compile

// a reference option in an arbitrary state: empty, or referring to either of two objects
#define AT(...) std::addressof(__VA_ARGS__)
template<class R, class T>
struct RefArb {
    opt::option<R> o;
    T* p;
    RefArb(T& x, T& y) noexcept : p(nullptr) {
        if (vc_nondet_bool()) { p = AT(x); } else if (vc_nondet_bool()) { p = AT(y); }
        if (p != nullptr) { if constexpr (std::is_lvalue_reference_v<R>) { o.emplace(*p); } else { o.emplace(static_cast<R>(*p)); } }
    }
    bool at(const void* q) const noexcept { return o.ptr_or_null() == q && o.has_value() == (q != nullptr); }
};
#define SAME vc_assert(vc_same(AT(x), sizeof(x), 1) && vc_same(AT(y), sizeof(y), 2), "referents are not touched");
template<class T>
void bind(T& x, T& y) {
    using O = opt::option<T&>;
    vc_snap(AT(x), sizeof(x), 1);
    vc_snap(AT(y), sizeof(y), 2);
    RefArb<T&, T> s(x, y);
    O& o = s.o;
    T* const p = s.p;
    vc_cover("reached");
    vc_assert(s.at(p), "binding refers to that very object");
    ALT({ O n(y); vc_assert(n.ptr_or_null() == AT(y) && AT(n.get()) == AT(y) && AT(*n) == AT(y) && n.operator->() == AT(y) && AT(n.value()) == AT(y) && AT(n.get_unchecked()) == AT(y) && n.begin() != n.end(), "construction refers to that very object"); SAME })
    ALT({ O n(std::in_place, y); vc_assert(n.ptr_or_null() == AT(y), "in-place construction refers to that very object"); SAME })
    ALT({ O n; vc_assert(!n.has_value() && n.ptr_or_null() == nullptr, "a default constructed reference option is empty"); SAME })
    ALT({ O n(opt::none); vc_assert(!n.has_value() && n.ptr_or_null() == nullptr, "empty from none"); SAME })
    ALT({ o = y; vc_assert(s.at(AT(y)), "assignment rebinds"); SAME })
    ALT({ auto& r = o.emplace(y); vc_assert(s.at(AT(y)) && AT(r) == AT(y), "emplace rebinds"); SAME })
    ALT({ auto& r = o.try_emplace(y); T* const q = p ? p : AT(y); vc_assert(s.at(q) && AT(r) == q, "try_emplace binds only when empty"); SAME })
    ALT({ o.reset(); vc_assert(s.at(nullptr), "reset unbinds"); SAME })
    ALT({ o = opt::none; vc_assert(s.at(nullptr), "assigning none unbinds"); SAME })
    ALT({ o = {}; vc_assert(s.at(nullptr), "assigning {} unbinds"); SAME })
    ALT({ O n(o); vc_assert(n.ptr_or_null() == p && n.has_value() == (p != nullptr) && s.at(p), "copying preserves the identity of the referent"); SAME })
    ALT({ O n(std::move(o)); vc_assert(n.ptr_or_null() == p && n.has_value() == (p != nullptr), "moving preserves the identity of the referent"); SAME })
    ALT({ RefArb<T&, T> t(x, y); T* const q = t.p; o = t.o; vc_assert(s.at(q) && t.at(q), "copy assignment rebinds"); SAME })
    ALT({ RefArb<T&, T> t(x, y); T* const q = t.p; o = std::move(t.o); vc_assert(s.at(q), "move assignment rebinds"); SAME })
    ALT({ auto& self = o; o = self; vc_assert(s.at(p), "self-assignment changes nothing"); SAME })
    ALT({ RefArb<T&, T> t(x, y); T* const q = t.p; o.swap(t.o); vc_assert(s.at(q) && t.at(p), "swap exchanges the referents' identities"); SAME })
    ALT({ auto t = o.take(); vc_assert(s.at(nullptr) && t.ptr_or_null() == p && t.has_value() == (p != nullptr), "take moves the reference out"); SAME })
    ALT({ { opt::option<const T&> c(o); vc_assert(c.ptr_or_null() == p && c.has_value() == (p != nullptr), "T& to const T& preserves identity"); } SAME })
    ALT({ { opt::option<const T&> c(std::move(o)); vc_assert(c.ptr_or_null() == p && c.has_value() == (p != nullptr), "T& to const T& preserves identity (move)"); } SAME })
    ALT({ RefArb<const T&, const T> c(x, y); c.o = o; vc_assert(c.at(p) && s.at(p), "assigning T& to const T& rebinds"); SAME })
    ALT({ RefArb<const T&, const T> c(x, y); c.o = std::move(o); vc_assert(c.at(p), "assigning T& to const T& rebinds (move)"); SAME })
    ALT({ RefArb<const T&, const T> c(x, y); c.o = y; vc_assert(c.at(AT(y)), "option<const T&> from T"); c.o = std::as_const(x); vc_assert(c.at(AT(x)), "option<const T&> from const T"); SAME })
    ALT({ std::reference_wrapper<T> w(y); O n(w); vc_assert(n.ptr_or_null() == AT(y), "construction from a reference_wrapper refers to its referent"); SAME })
    ALT({ std::reference_wrapper<T> w(y); O n(std::in_place, w); vc_assert(n.ptr_or_null() == AT(y), "in-place construction from a reference_wrapper refers to its referent"); SAME })
    ALT({ std::reference_wrapper<T> w(y); o = w; vc_assert(s.at(AT(y)), "assignment from a reference_wrapper rebinds to its referent"); SAME })
    ALT({ auto& r = o.emplace(std::reference_wrapper<T>(y)); vc_assert(s.at(AT(y)) && AT(r) == AT(y), "emplace of a reference_wrapper rebinds to its referent"); SAME })
    ALT({ auto& r = o.try_emplace(std::reference_wrapper<T>(y)); T* const q = p ? p : AT(y); vc_assert(s.at(q) && AT(r) == q, "try_emplace of a reference_wrapper binds only when empty"); SAME })
    ALT({ opt::option<const T&> c(std::reference_wrapper<T>{y}); vc_assert(c.ptr_or_null() == AT(y), "option<const T&> from a reference_wrapper<T>"); SAME })
    ALT({ RefArb<const T&, const T> c(x, y); c.o = std::reference_wrapper<const T>(y); vc_assert(c.at(AT(y)), "option<const T&> assigned from a reference_wrapper<const T>"); SAME })
    SAME
}
// reading and writing through the option acts on the referent
VC_SPEC(C12_write_through) {
    u32 x = vc_nondet_u32();
    const u32 a = vc_nondet_u32(), b = vc_nondet_u32();
    opt::option<u32&> o(x);
    vc_cover("reached");
    vc_assert(*o == x && o.get() == x && o.value() == x, "reading through the option reads the referent");
    *o = a;
    vc_assert(x == a, "writing through the option writes the referent");
    x = b;
    vc_assert(*o == b && o.value_or(x) == b, "writes to the referent are seen through the option");
    o.get() = a; vc_assert(x == a, "get() writes through");
    *o.operator->() = b; vc_assert(x == b, "operator-> writes through");
    o.value() = a; vc_assert(x == a, "value() writes through");
    o.get_unchecked() = b; vc_assert(x == b, "get_unchecked() writes through");
    *o.ptr_or_null() = a; vc_assert(x == a, "ptr_or_null() writes through");
    for (u32& e : o) { e = b; }
    vc_assert(x == b, "iteration writes through");
    o.inspect([&](u32& e) { e = a; });
    vc_assert(x == a, "inspect writes through");
    opt::option<u32&> p = o;
    *p = b;
    vc_assert(*o == b, "copies alias the same referent");
}
VC_SPEC(C12_bind_int) { u32 x = vc_nondet_u32(), y = vc_nondet_u32(); bind<u32>(x, y); }
VC_SPEC(C12_bind_byte) { u8 x = vc_nondet_u8(), y = vc_nondet_u8(); bind<u8>(x, y); }
VC_SPEC(C12_bind_bool) { bool x = vc_nondet_bool(), y = vc_nondet_bool(); bind<bool>(x, y); }
VC_SPEC(C12_bind_ptr) { u32 t; u32 *x = &t, *y = nullptr; bind<u32*>(x, y); }
VC_SPEC(C12_bind_pin) { Pin x(vc_nondet_u32()), y(vc_nondet_u32()); bind<Pin>(x, y); }
VC_SPEC(C12_bind_abs) { Abs<1> x(V{vc_nondet_u32()}), y(V{vc_nondet_u32()}); const u32 m = g_ctor, d = g_dtor; bind<Abs<1>>(x, y); vc_assert(g_ctor == m && g_dtor == d && g_copy + g_move + g_casg + g_masg == 0, "no object is created, copied, assigned or destroyed"); }
// the referent's own operator& is never consulted
VC_SPEC(C12_bind_hos) { Hos<0> x(V{vc_nondet_u32()}), y(V{vc_nondet_u32()}); const u32 m = g_ctor, d = g_dtor; bind<Hos<0>>(x, y); vc_assert(g_ctor == m && g_dtor == d && g_copy + g_move + g_casg + g_masg == 0, "no object is created, copied, assigned or destroyed"); }
VC_SPEC(C12_bind_hosv) { HosV<2> x(V{vc_nondet_u32()}), y(V{vc_nondet_u32()}); bind<HosV<2>>(x, y); }
// the same object anywhere in memory
VC_SPEC(C12_any_address) {
    u32* const p = static_cast<u32*>(vc_nondet_ptr());
    vc_assume(p != nullptr);
    vc_cover("reached");
    opt::option<u32&> o(*p);
    vc_assert(o.has_value() && o.ptr_or_null() == p && &o.get() == p, "refers to the object at any address");
    opt::option<const u32&> c(o);
    vc_assert(c.has_value() && c.ptr_or_null() == p, "conversion preserves any address");
    o.reset();
    vc_assert(!o.has_value() && c.ptr_or_null() == p, "reset of one does not affect the other");
}
VC_SPEC(C12_derived_to_base) {
    Derived x{}, y{};
    x.c = vc_nondet_u32();
    y.c = vc_nondet_u32();
    vc_snap(&x, sizeof(x), 1);
    vc_snap(&y, sizeof(y), 2);
    RefArb<Derived&, Derived> s(x, y);
    Derived* const p = s.p;
    Base2* const want = p;                                          // adjusted pointer; null stays null
    vc_cover("reached");
    ALT({ opt::option<Base2&> b(s.o); vc_assert(b.ptr_or_null() == want && b.has_value() == (p != nullptr), "derived to second base adjusts the address"); SAME })
    ALT({ opt::option<Base2&> b(std::move(s.o)); vc_assert(b.ptr_or_null() == want && b.has_value() == (p != nullptr), "derived to second base adjusts the address (move)"); SAME })
    ALT({ opt::option<Base2&> b(y); vc_assert(b.ptr_or_null() == static_cast<Base2*>(&y), "base reference from a derived object"); SAME })
    ALT({ opt::option<Base2&> b; if (vc_nondet_bool()) { b = x; } b = s.o; vc_assert(b.ptr_or_null() == want && b.has_value() == (p != nullptr), "assigning derived to base rebinds"); SAME })
    ALT({ opt::option<Base2&> b; if (vc_nondet_bool()) { b = x; } b = std::move(s.o); vc_assert(b.ptr_or_null() == want && b.has_value() == (p != nullptr), "assigning derived to base rebinds (move)"); SAME })
    ALT({ opt::option<Base2&> b; if (vc_nondet_bool()) { b = x; } b = y; vc_assert(b.ptr_or_null() == static_cast<Base2*>(&y), "assigning a derived object rebinds"); SAME })
    ALT({ opt::option<const Base1&> b(s.o); vc_assert(b.ptr_or_null() == static_cast<const Base1*>(p), "derived to const first base"); SAME })
    ALT({ opt::option<Base2&> b; b.emplace(y); vc_assert(b.ptr_or_null() == static_cast<Base2*>(&y), "emplace of a derived object"); SAME })
    SAME
}
// option<T> from option<T&> copies the referent, and never aliases it
VC_SPEC(C12_to_value) {
    u32 x = vc_nondet_u32(), y = vc_nondet_u32();
    const u32 x0 = x, y0 = y;
    RefArb<u32&, u32> s(x, y);
    const bool h = s.p != nullptr;
    const u32 v = h ? *s.p : 0;
    vc_cover("reached");
    opt::option<u32> a(s.o);
    vc_assert(is_state(a, h, v), "a value option copies the referent");
    Arb<u32> t;
    t.o = s.o;
    vc_assert(is_state(t.o, h, v), "assigning a reference option to a value option copies the referent");
    if (h) { *a = 77; }
    vc_assert(x == x0 && y == y0, "and does not alias it");
    vc_assert(s.at(s.p), "and leaves the reference alone");
}
// option<T&> from an option<T> refers to the contained object
VC_SPEC(C12_contained_object) {
    Arb<Abs<1, 2>> s;
    vc_cover("reached");
    auto r = opt::from_nullable(s.o.ptr_or_null());
    vc_assert(r.ptr_or_null() == s.o.ptr_or_null() && r.has_value() == s.h, "a reference to the contained object");
    vc_assert(is_state(s.o, s.h, s.v), "nothing is copied");
    s.destroy();
}
template<class T>
void rvalue_reference() {
    T x(V{1}), y(V{2});
    vc_snap(AT(x), sizeof(x), 1);
    vc_snap(AT(y), sizeof(y), 2);
    const u32 m = g_ctor, d = g_dtor;
    RefArb<T&&, T> s(x, y);
    T* const p = s.p;
    vc_cover("reached");
    vc_assert(s.at(p), "an r-value reference option refers to that very object");
    ALT({ s.o = std::move(y); vc_assert(s.at(AT(y)), "assignment rebinds"); SAME })
    ALT({ s.o.reset(); vc_assert(s.at(nullptr), "reset unbinds"); SAME })
    ALT({ opt::option<T&&> n(std::move(y)); vc_assert(n.ptr_or_null() == AT(y), "construction refers to that very object"); SAME })
    ALT({ opt::option<T&&> n(s.o); vc_assert(n.ptr_or_null() == p, "copying preserves identity"); SAME })
    ALT({ opt::option<T&&> n; n = s.o; vc_assert(n.ptr_or_null() == p, "assignment preserves identity"); SAME })
    ALT({ if (p) { T&& r = std::move(s.o).get(); vc_assert(AT(r) == p, "get() && denotes the referent"); } SAME })
    vc_assert(g_ctor == m && g_dtor == d, "no object is created or destroyed");
    SAME
}
VC_SPEC(C12_rvalue_reference) { rvalue_reference<Abs<1>>(); }
VC_SPEC(C12_rvalue_reference_hos) { rvalue_reference<Hos<0>>(); }
// option<reference> nested in an option keeps the binding
VC_SPEC(C12_nested) {
    u32 x = vc_nondet_u32(), y = vc_nondet_u32();
    vc_snap(&x, sizeof(x), 1);
    vc_snap(&y, sizeof(y), 2);
    opt::option<opt::option<u32&>> o;
    const bool outer = vc_nondet_bool(), inner = vc_nondet_bool();
    if (outer) { o.emplace(); if (inner) { o->emplace(x); } }
    vc_cover("reached");
    vc_assert(o.has_value() == outer, "outer state");
    if (outer) { vc_assert(o->has_value() == inner && o->ptr_or_null() == (inner ? &x : nullptr), "inner state"); }
    o = opt::option<u32&>(y);
    vc_assert(o.has_value() && o->ptr_or_null() == &y, "rebinding the inner option");
    SAME
}

// what a reference option binds to, and what it refuses: the documented conditions, written down on their own.  In particular nothing
// that would need a temporary (a conversion of the referent) is ever accepted, by any of the four routes, and no route is explicit.
#ifdef __clang__
#define CONST(C, L) vc_assert(C, L)
#else
#define CONST(C, L) static_assert(C, L)
#endif
template<class R, class A>                                          // does R bind to (the referent denoted by) A?  A is a reference type
inline constexpr bool binds = std::is_lvalue_reference_v<R> == std::is_lvalue_reference_v<A>
    && std::is_convertible_v<std::remove_reference_t<A>*, std::remove_reference_t<R>*>;
template<class R, class A>
void refuse() {                                                     // A: an l-value or r-value reference type
    using O = opt::option<R>;
    constexpr bool b = binds<R, A>;
    CONST((std::is_constructible_v<O, A> == b), "constructible from exactly what the reference binds to");
    CONST((std::is_convertible_v<A, O> == b), "and never explicitly");
    CONST((std::is_assignable_v<O&, A> == b), "assignable from exactly what the reference binds to");
    using OA = opt::option<A>;
    constexpr bool q = b || std::is_same_v<R, A>;
    CONST((std::is_constructible_v<O, OA&> == q && std::is_constructible_v<O, const OA&> == q && std::is_constructible_v<O, OA> == q && std::is_constructible_v<O, const OA> == q),
        "constructible from exactly the reference options whose reference converts");
    CONST((std::is_convertible_v<OA&, O> == q && std::is_convertible_v<const OA&, O> == q && std::is_convertible_v<OA, O> == q && std::is_convertible_v<const OA, O> == q),
        "and never explicitly (options)");
    CONST((std::is_assignable_v<O&, OA&> == q && std::is_assignable_v<O&, const OA&> == q && std::is_assignable_v<O&, OA> == q && std::is_assignable_v<O&, const OA> == q),
        "assignable from exactly the reference options whose reference converts");
    using V = std::remove_cv_t<std::remove_reference_t<A>>;
    if constexpr (!std::is_same_v<V, Derived>) {              // (an aggregate with bases cannot be reflected)
        using OV = opt::option<V>;                                  // a value option is no reference: it may hold a temporary
        constexpr bool v = std::is_rvalue_reference_v<R> && binds<R, V&&>;
        CONST((std::is_constructible_v<O, OV&> == v && std::is_constructible_v<O, const OV&> == v && std::is_assignable_v<O&, OV&> == v),
            "a reference is not taken to a value option's contents implicitly");
    }
}
template<class R, class... As>
void refuse_all() { (refuse<R, As&>(), ...); (refuse<R, As&&>(), ...); }
struct Conv { operator u32&() const; operator u32() const; };      // converts to the referent's type: still no binding
template<class R>
void refuses() {
    refuse_all<R, u32, const u32, int, u8, bool, const bool, double, float, u32*, const u32*, u32* const, Derived, const Derived, Base1, Base2, const Base2, Pin, const Pin, Conv,
        Abs<1>, const Abs<1>, opt::sentinel<int, -1>>();
    CONST((!std::is_constructible_v<opt::option<R>, std::nullptr_t> && !std::is_constructible_v<opt::option<R>, const char(&)[3]>), "neither null pointers nor string literals");
    CONST((std::is_constructible_v<opt::option<R>, opt::none_t> && std::is_convertible_v<opt::none_t, opt::option<R>> && std::is_assignable_v<opt::option<R>&, opt::none_t>), "none empties");
    CONST((!std::is_constructible_v<opt::option<R>, std::in_place_t> || std::is_default_constructible_v<opt::option<R>>), "in_place alone binds nothing");
    using T = std::remove_reference_t<R>;
    using C = std::remove_const_t<T>;
    if constexpr (std::is_lvalue_reference_v<R>) {
        CONST((std::is_constructible_v<opt::option<R>, std::reference_wrapper<T>> && std::is_constructible_v<opt::option<R>, std::reference_wrapper<C>>), "reference_wrapper of the referent, const or not");
        CONST((std::is_assignable_v<opt::option<R>&, std::reference_wrapper<T>> && std::is_assignable_v<opt::option<R>&, std::reference_wrapper<C>>), "assignment likewise");
        CONST((std::is_constructible_v<opt::option<R>, std::reference_wrapper<const C>> == std::is_const_v<T>), "const is not cast away by a reference_wrapper");
        CONST((std::is_assignable_v<opt::option<R>&, std::reference_wrapper<const C>> == std::is_const_v<T>), "nor by assigning one");
        CONST((!std::is_constructible_v<opt::option<R>, std::reference_wrapper<u16>> && !std::is_assignable_v<opt::option<R>&, std::reference_wrapper<u16>>), "no other type's reference_wrapper");
    }
}
#define REFUSES(N, ...) VC_SPEC(C12_refuses_##N) { vc_cover("reached"); refuses<__VA_ARGS__&>(); refuses<const __VA_ARGS__&>(); refuses<__VA_ARGS__&&>(); refuses<const __VA_ARGS__&&>(); }
REFUSES(u32, u32) REFUSES(bool, bool) REFUSES(double, double) REFUSES(ptr, u32*) REFUSES(base1, Base1) REFUSES(base2, Base2) REFUSES(derived, Derived) REFUSES(pin, Pin) REFUSES(abs, Abs<1>)
