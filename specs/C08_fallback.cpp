// C08: fallback queries return the value or exactly the fallback
#include "abs.hpp"

inline u32 g_calls = 0;                                             // evaluations of the lazily supplied fallback
inline u32 g_calls_f = 0;                                           // calls of the mapping function
template<class T> bool holds(const T& t, u64 v) { return M<T>::ok(t) && M<T>::val(t) == v; }

// option | value, where the value is not itself an option (that is the operation of C11)
template<class O, class F> auto pipe(O&& o, F&& f) {
    if constexpr (opt::is_option_v<std::remove_cv_t<std::remove_reference_t<F>>>) { return static_cast<O&&>(o).value_or(static_cast<F&&>(f)); }
    else { return static_cast<O&&>(o) | static_cast<F&&>(f); }
}
template<class T>
void value_or_copy() {
    const u32 x = vc_nondet_u32();
    const u64 e = M<T>::lift(x);
    Arb<T> s;
    vc_cover("reached");
    const opt::option<T>& c = s.o;
    const u64 want = s.h ? s.v : e;
#define KEPT vc_assert(is_state(s.o, s.h, s.v), "an l-value option is not modified"); s.destroy();
    ALT({ { T r(c.value_or(M<T>::make(x))); vc_assert(holds(r, want), "value_or const& returns the value or the fallback"); } KEPT })
    ALT({ { T r(s.o.value_or(M<T>::make(x))); vc_assert(holds(r, want), "value_or & returns the value or the fallback"); } KEPT })
    ALT({ { const T f(M<T>::make(x)); T r(c.value_or(f)); vc_assert(holds(r, want) && holds(f, e), "value_or with an l-value fallback copies it"); } KEPT })
    ALT({ { T f(M<T>::make(x)); T r(c.value_or(std::move(f))); vc_assert(holds(r, want), "value_or with an r-value fallback"); if (s.h) vc_assert(holds(f, e), "an unused fallback is not moved from"); } KEPT })
    ALT({ { T r(pipe(c, M<T>::make(x))); vc_assert(holds(r, want), "operator| (option, value) returns the value or the fallback"); } KEPT })
    ALT({ { T r(pipe(s.o, M<T>::make(x))); vc_assert(holds(r, want), "operator| (l-value option, value)"); } KEPT })
    ALT({ { const T f(M<T>::make(x)); T r(pipe(c, f)); vc_assert(holds(r, want) && holds(f, e), "operator| with an l-value fallback copies it"); } KEPT })
    ALT({ { T r(c.value_or_construct(M<T>::make(x))); vc_assert(holds(r, want), "value_or_construct const&"); } KEPT })
    ALT({ { g_calls = 0; opt::option<T> r(c.or_else([&] { ++g_calls; return opt::option<T>(M<T>::make(x)); })); vc_assert(is_val(r, want), "or_else const& returns the option or the fallback"); vc_assert(g_calls == (s.h ? 0u : 1u), "or_else evaluates the fallback exactly when empty"); } KEPT })
    ALT({ { g_calls = 0; opt::option<T> r(s.o.or_else([&] { ++g_calls; return opt::option<T>(); })); vc_assert(is_state(r, s.h, s.v), "or_else with an empty fallback"); vc_assert(g_calls == (s.h ? 0u : 1u), "or_else evaluates the fallback exactly when empty"); } KEPT })
    s.destroy();
}
#define OUT(L) if constexpr (Ops<T>::mc) { if (s.h) { vc_assert(r.how == MOVED, L " moves the value out"); } }
template<class T>
void value_or_move() {
    const u32 x = vc_nondet_u32();
    const u64 e = M<T>::lift(x);
    Arb<T> s;
    vc_cover("reached");
    const u64 want = s.h ? s.v : e;
#define MOVED_FROM vc_assert(s.o.has_value() == s.h, "an r-value option stays engaged iff it was"); s.destroy();
    ALT({ { T r(std::move(s.o).value_or(M<T>::make(x))); vc_assert(holds(r, want), "value_or && returns the value or the fallback"); if constexpr (Ops<T>::mc) { if (s.h) vc_assert(r.how == MOVED, "value_or && moves the value out"); } } MOVED_FROM })
    ALT({ { T f(M<T>::make(x)); T r(std::move(s.o).value_or(std::move(f))); vc_assert(holds(r, want), "value_or && with an r-value fallback"); if (s.h) vc_assert(holds(f, e), "an unused fallback is not moved from"); OUT("value_or &&") } MOVED_FROM })
    ALT({ { T r(pipe(std::move(s.o), M<T>::make(x))); vc_assert(holds(r, want), "operator| (r-value option, value)"); OUT("operator| &&") } MOVED_FROM })
    ALT({ { T r(std::move(s.o).value_or_construct(M<T>::make(x))); vc_assert(holds(r, want), "value_or_construct &&"); if constexpr (Ops<T>::mc) { if (s.h) vc_assert(r.how == MOVED, "value_or_construct && moves the value out"); } } MOVED_FROM })
    ALT({ { g_calls = 0; opt::option<T> r(std::move(s.o).or_else([&] { ++g_calls; return opt::option<T>(M<T>::make(x)); })); vc_assert(is_val(r, want), "or_else && returns the option or the fallback"); vc_assert(g_calls == (s.h ? 0u : 1u), "or_else && evaluates the fallback exactly when empty"); if constexpr (Ops<T>::mc) { if (s.h) vc_assert(r.get().how == MOVED, "or_else && moves the value out"); } } MOVED_FROM })
    ALT({ { g_calls = 0; opt::option<T> r(std::move(s.o).or_else([&] { ++g_calls; return opt::option<T>(); })); vc_assert(is_state(r, s.h, s.v), "or_else && with an empty fallback"); vc_assert(g_calls == (s.h ? 0u : 1u), "or_else && evaluates the fallback exactly when empty"); if constexpr (Ops<T>::mc) { if (s.h) vc_assert(r.get().how == MOVED, "or_else && moves the value out"); } } MOVED_FROM })
    s.destroy();
}
// fallbacks of another type are converted; several constructor arguments
template<class T>
void value_or_convert() {
    const V x{vc_nondet_u32()}, y{vc_nondet_u32()};
    Arb<T> s;
    vc_cover("reached");
    const opt::option<T>& c = s.o;
    ALT({ { T r(c.value_or(x)); vc_assert(holds(r, s.h ? s.v : x.x), "value_or converts the fallback"); } KEPT })
    ALT({ { T r(c | x); vc_assert(holds(r, s.h ? s.v : x.x), "operator| converts the fallback"); } KEPT })
    ALT({ { T r(c.value_or(W{x.x})); vc_assert(holds(r, s.h ? s.v : u32(vc_uf(UF_CONV, x.x, 0))), "value_or converts an explicitly convertible fallback"); } KEPT })
    ALT({ { T r(c.value_or_construct(x, y)); vc_assert(holds(r, s.h ? s.v : u32(vc_uf(UF_CTOR2, x.x, y.x))), "value_or_construct(args...)"); } KEPT })
    ALT({ { T r(c.value_or_construct(std::initializer_list<V>{x, y, x}, y)); vc_assert(holds(r, s.h ? s.v : u32(vc_uf(UF_LIST, x.x + 3, y.x))), "value_or_construct(list, args...)"); } KEPT })
    ALT({ { T r(std::move(s.o).value_or_construct(x, y)); vc_assert(holds(r, s.h ? s.v : u32(vc_uf(UF_CTOR2, x.x, y.x))), "value_or_construct(args...) &&"); OUT("value_or_construct(args...) &&") } MOVED_FROM })
    ALT({ { T r(std::move(s.o).value_or_construct({x, y, x}, y)); vc_assert(holds(r, s.h ? s.v : u32(vc_uf(UF_LIST, x.x + 3, y.x))), "value_or_construct(list, args...) &&"); OUT("value_or_construct(list, args...) &&") } MOVED_FROM })
    ALT({ { T r(std::move(s.o).value_or(x)); vc_assert(holds(r, s.h ? s.v : x.x), "value_or && converts the fallback"); OUT("value_or(x) &&") } MOVED_FROM })
    ALT({ { T r(std::move(s.o) | x); vc_assert(holds(r, s.h ? s.v : x.x), "operator| && converts the fallback"); OUT("operator| &&") } MOVED_FROM })
    s.destroy();
}
// map_or, map_or_else: f is an uninterpreted function of the value
template<class T>
void mapped() {
    using O = opt::option<T>;
    const u64 d = vc_nondet_u64();
    Arb<T> s;
    vc_cover("reached");
    O& o = s.o;
    const O& c = s.o;
    g_calls = g_calls_f = 0;
    const u64 want = s.h ? vc_uf(UF_FN, s.v, 0) : d;
    const T* const p = c.ptr_or_null();
    auto f = [&](const T& t) -> u64 { ++g_calls_f; vc_assert(std::addressof(t) == p, "the function gets the contained object"); return vc_uf(UF_FN, M<T>::val(t), 0); };
    auto g = [&]() -> u64 { ++g_calls; return d; };
#define CALLED vc_assert(g_calls_f == (s.h ? 1u : 0u), "the function is called exactly when engaged");
#define LAZY CALLED vc_assert(g_calls == (s.h ? 0u : 1u), "the lazy fallback is evaluated exactly when empty");
    ALT({ vc_assert(o.map_or(d, f) == want, "map_or &"); CALLED KEPT })
    ALT({ vc_assert(c.map_or(d, f) == want, "map_or const&"); CALLED KEPT })
    ALT({ vc_assert(std::move(o).map_or(d, f) == want, "map_or &&"); CALLED KEPT })
    ALT({ vc_assert(std::move(c).map_or(d, f) == want, "map_or const&&"); CALLED KEPT })
    ALT({ vc_assert(o.map_or_else(g, f) == want, "map_or_else &"); LAZY KEPT })
    ALT({ vc_assert(c.map_or_else(g, f) == want, "map_or_else const&"); LAZY KEPT })
    ALT({ vc_assert(std::move(o).map_or_else(g, f) == want, "map_or_else &&"); LAZY KEPT })
    ALT({ vc_assert(std::move(c).map_or_else(g, f) == want, "map_or_else const&&"); LAZY KEPT })
    // the function sees the option's value category and constness
    ALT({ (void)o.map_or(0, [](auto&& t) { vc_assert(std::is_same_v<decltype(t), T&>, "map_or & passes T&"); return 1; }); s.destroy(); })
    ALT({ (void)c.map_or(0, [](auto&& t) { vc_assert(std::is_same_v<decltype(t), const T&>, "map_or const& passes const T&"); return 1; }); s.destroy(); })
    ALT({ (void)std::move(o).map_or(0, [](auto&& t) { vc_assert(std::is_same_v<decltype(t), T&&>, "map_or && passes T&&"); return 1; }); s.destroy(); })
    ALT({ (void)std::move(c).map_or(0, [](auto&& t) { vc_assert(std::is_same_v<decltype(t), const T&&>, "map_or const&& passes const T&&"); return 1; }); s.destroy(); })
    ALT({ (void)o.map_or_else([] { return 0; }, [](auto&& t) { vc_assert(std::is_same_v<decltype(t), T&>, "map_or_else & passes T&"); return 1; }); s.destroy(); })
    ALT({ (void)c.map_or_else([] { return 0; }, [](auto&& t) { vc_assert(std::is_same_v<decltype(t), const T&>, "map_or_else const& passes const T&"); return 1; }); s.destroy(); })
    ALT({ (void)std::move(o).map_or_else([] { return 0; }, [](auto&& t) { vc_assert(std::is_same_v<decltype(t), T&&>, "map_or_else && passes T&&"); return 1; }); s.destroy(); })
    ALT({ (void)std::move(c).map_or_else([] { return 0; }, [](auto&& t) { vc_assert(std::is_same_v<decltype(t), const T&&>, "map_or_else const&& passes const T&&"); return 1; }); s.destroy(); })
    s.destroy();
}
// results of class type: the fallback / the function's result is delivered unchanged
template<class R>
void mapped_class() {
    const u32 x = vc_nondet_u32();
    const u64 e = M<R>::lift(x);
    Arb<u32> s;
    vc_cover("reached");
    const u64 want = s.h ? M<R>::lift(u32(s.v) + 1) : e;
    ALT({ { const R f(M<R>::make(x)); R r(s.o.map_or(f, [](u32& v) { return M<R>::make(v + 1); })); vc_assert(holds(r, want) && holds(f, e), "map_or delivers the result or the fallback"); } KEPT })
    ALT({ { R f(M<R>::make(x)); R r(std::move(s.o).map_or(std::move(f), [](u32&& v) { return M<R>::make(v + 1); })); vc_assert(holds(r, want), "map_or && delivers the result or the fallback"); if (s.h) vc_assert(holds(f, e), "an unused fallback is not moved from"); } KEPT })
    ALT({ { R r(s.o.map_or_else([&] { return M<R>::make(x); }, [](u32& v) { return M<R>::make(v + 1); })); vc_assert(holds(r, want), "map_or_else delivers the result or the fallback"); } KEPT })
    s.destroy();
}
// fallbacks and functions are passed on with the value category they were given with; a move-only fallback is enough
VC_SPEC(C08_callee) {
    Arb<u32> s;
    vc_cover("reached");
    using O = opt::option<u32>;
    O& o = s.o;
    const O& c = s.o;
    const u32 k = vc_nondet_u32();
    auto f = [=] { return k; };
    auto d = [] { return 1u; };
    auto q = [=] { return opt::option<u32>(k); };
    ALT(callee_category(s.h, f, [&](auto&& fn) { (void)o.map_or(1u, FWD(fn)); });)
    ALT(callee_category(s.h, f, [&](auto&& fn) { (void)c.map_or(1u, FWD(fn)); });)
    ALT(callee_category(s.h, f, [&](auto&& fn) { (void)std::move(o).map_or(1u, FWD(fn)); });)
    ALT(callee_category(s.h, f, [&](auto&& fn) { (void)std::move(c).map_or(1u, FWD(fn)); });)
    ALT(callee_category(s.h, f, [&](auto&& fn) { (void)o.map_or_else(d, FWD(fn)); });)
    ALT(callee_category(s.h, f, [&](auto&& fn) { (void)c.map_or_else(d, FWD(fn)); });)
    ALT(callee_category(s.h, f, [&](auto&& fn) { (void)std::move(o).map_or_else(d, FWD(fn)); });)
    ALT(callee_category(s.h, f, [&](auto&& fn) { (void)std::move(c).map_or_else(d, FWD(fn)); });)
    auto g = [](auto&&) { return 1u; };
    ALT(callee_category(!s.h, f, [&](auto&& fn) { (void)o.map_or_else(FWD(fn), g); });)
    ALT(callee_category(!s.h, f, [&](auto&& fn) { (void)c.map_or_else(FWD(fn), g); });)
    ALT(callee_category(!s.h, f, [&](auto&& fn) { (void)std::move(o).map_or_else(FWD(fn), g); });)
    ALT(callee_category(!s.h, f, [&](auto&& fn) { (void)std::move(c).map_or_else(FWD(fn), g); });)
    ALT(callee_category(!s.h, q, [&](auto&& fn) { (void)o.or_else(FWD(fn)); });)
    ALT(callee_category(!s.h, q, [&](auto&& fn) { (void)c.or_else(FWD(fn)); });)
    ALT(callee_category(!s.h, q, [&](auto&& fn) { (void)std::move(o).or_else(FWD(fn)); });)
}
VC_SPEC(C08_forwarding) {                                           // fallbacks and constructor arguments are passed on with their value categories
    using O = opt::option<Fwd>;
    vc_cover("reached");
    const O o;
    const std::initializer_list<Arg> l{Arg{1}, Arg{2}};
    forwards1(0, "value_or(a) forwards", [&](auto&& a) { return o.value_or(FWD(a)); });
    forwards1(0, "value_or(a) && forwards", [](auto&& a) { return O().value_or(FWD(a)); });
    forwards1(0, "operator| forwards", [&](auto&& a) { return o | FWD(a); });
    forwards1(0, "operator| && forwards", [](auto&& a) { return O() | FWD(a); });
    forwards1(0, "value_or_construct(a) forwards", [&](auto&& a) { return o.value_or_construct(FWD(a)); });
    forwards2("value_or_construct(a, b) forwards", [&](auto&& a, auto&& b) { return o.value_or_construct(FWD(a), FWD(b)); });
    forwards2("value_or_construct(a, b) && forwards", [](auto&& a, auto&& b) { return O().value_or_construct(FWD(a), FWD(b)); });
    forwards_list("value_or_construct({...}, a) forwards", [&](auto&& b) { return o.value_or_construct(l, FWD(b)); });
    forwards_list("value_or_construct({...}, a) && forwards", [&](auto&& b) { return O().value_or_construct(l, FWD(b)); });
}
VC_SPEC(C08_reentrant) {                                            // the function or the fallback may change the option itself: exactly one of them is called, once
    Arb<u32> a;
    const bool reset = vc_nondet_bool(), yes = vc_nondet_bool();
    const u32 n = vc_nondet_u32(), q = vc_nondet_u32(), d = vc_nondet_u32();
    vc_cover("reached");
    opt::option<u32>& o = a.o;
    const bool h = a.h;
    u32 fs = 0, ds = 0;
    auto poke = [&] { if (reset) { o.reset(); } else { o = n; } };
    auto f = [&](const u32&) { ++fs; poke(); return q; };
    auto g = [&] { ++ds; poke(); return d; };
#define ONE(LAZY) vc_assert(fs == (h ? 1u : 0u) && ds == (LAZY && !h ? 1u : 0u), "exactly the one that is due is called, once");
    ALT({ vc_assert(o.map_or(d, f) == (h ? q : d), "map_or is the function's result or the fallback"); ONE(false) })
    ALT({ vc_assert(std::as_const(o).map_or(d, f) == (h ? q : d), "map_or const& is the function's result or the fallback"); ONE(false) })
    ALT({ vc_assert(o.map_or_else(g, f) == (h ? q : d), "map_or_else is the function's or the fallback's result"); ONE(true) })
    ALT({ vc_assert(std::as_const(o).map_or_else(g, f) == (h ? q : d), "map_or_else const& is the function's or the fallback's result"); ONE(true) })
    ALT({ auto r = o.or_else([&] { ++ds; poke(); return yes ? opt::option<u32>(d) : opt::option<u32>(); }); vc_assert(h ? is_val(r, a.v) && ds == 0 : is_state(r, yes, d) && ds == 1, "or_else is the option or the fallback's result"); })
}
template<class R>
void moveonly_fallback() {
    const u32 x = vc_nondet_u32();
    const u64 e = M<R>::lift(x);
    Arb<u32> s;
    vc_cover("reached");
    const u64 want = s.h ? M<R>::lift(u32(s.v) + 1) : e;
    const opt::option<u32>& c = s.o;
    auto f = [](const u32& v) { return M<R>::make(v + 1); };
#define MOF(E, L) ALT({ { R d(M<R>::make(x)); R r(E.map_or(std::move(d), f)); vc_assert(holds(r, want), L " delivers the result or the fallback"); if (s.h) vc_assert(holds(d, e), "an unused fallback is not moved from"); NOCOPY(L); } KEPT })
    MOF(s.o, "map_or &")
    MOF(c, "map_or const&")
    MOF(std::move(s.o), "map_or &&")
    MOF(std::move(c), "map_or const&&")
    s.destroy();
}
VC_SPEC(C08_fallback_abs) { moveonly_fallback<Abs<1>>(); }
VC_SPEC(C08_fallback_mo) { moveonly_fallback<Abs<1, 0, true, false>>(); }
struct Mem { u32 a; u64 f() const { return vc_uf(UF_FN, a, 7); } };
VC_SPEC(C08_member_pointers) {
    const bool h = vc_nondet_bool();
    const u32 a = vc_nondet_u32();
    opt::option<Mem> o;
    if (h) { o = Mem{a}; }
    const u64 d = vc_nondet_u64();
    vc_cover("reached");
    vc_assert(o.map_or(d, &Mem::f) == (h ? vc_uf(UF_FN, a, 7) : d), "map_or with a member function");
    vc_assert(o.map_or(d, &Mem::a) == (h ? a : d), "map_or with a data member");
    vc_assert(o.map_or_else([&] { return d; }, &Mem::f) == (h ? vc_uf(UF_FN, a, 7) : d), "map_or_else with a member function");
}
VC_SPEC(C08_reference_option) {
    u32 x = vc_nondet_u32(), y = vc_nondet_u32();
    const u32 x0 = x, y0 = y;
    opt::option<u32&> o;
    const bool h = vc_nondet_bool();
    if (h) { o = x; }
    vc_cover("reached");
    u32& r = o.value_or(y);
    vc_assert(&r == (h ? &x : &y), "value_or of a reference option returns the referent or the fallback object");
    vc_assert((o | y) == (h ? x0 : y0) && x == x0 && y == y0, "operator| of a reference option");
    opt::option<u32&> q = o.or_else([&] { return opt::option<u32&>(y); });
    vc_assert(q.ptr_or_null() == (h ? &x : &y), "or_else of a reference option");
    vc_assert(o.map_or(1u, [&](u32& t) { vc_assert(&t == &x, "map_or passes the referent"); return 2u; }) == (h ? 2u : 1u), "map_or of a reference option");
}
#define I1(NAME, ...) VC_SPEC(C08_copy_##NAME) { value_or_copy<__VA_ARGS__>(); }
#define I2(NAME, ...) VC_SPEC(C08_move_##NAME) { value_or_move<__VA_ARGS__>(); } VC_SPEC(C08_mapped_##NAME) { mapped<__VA_ARGS__>(); }
#define I3(NAME, ...) VC_SPEC(C08_convert_##NAME) { value_or_convert<__VA_ARGS__>(); }
#define I4(NAME, ...) VC_SPEC(C08_mapclass_##NAME) { mapped_class<__VA_ARGS__>(); }
FAM_CONST(I1) FAM_CONST(I2) FAM_COPY(I1) FAM_ALL(I2) FAM_OPT(I1) FAM_OPT(I2) FAM_ABS(I3) FAM_TRIV(I3) FAM_ABS(I4) FAM_TRIV(I4) FAM_SCALAR(I4)
