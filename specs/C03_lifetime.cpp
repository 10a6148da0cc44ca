// C03: contained objects live exactly as long as the option is engaged
// Every T special member asserts that the objects it touches are alive (or, for constructors, that the storage is free);
// the ghost state counts live objects.  Here: after every operation, from arbitrary states, live objects == engaged options.
// vc-part: -DPART=1
// vc-part: -DPART=2
#include "abs.hpp"

template<class... O> u32 eng(const O&... o) { return (0u + ... + u32(o.has_value())); }
#define NONE_ALIVE vc_assert(live(1) == 0, "nothing alive at the end");
#define BALANCED(L, ...) vc_assert(live(1) == eng(__VA_ARGS__), L ": live objects equal engaged options")

template<class T>
void ops_mutators() {
    using O = opt::option<T>;
    const V x{vc_nondet_u32()}, y{vc_nondet_u32()};
    vc_cover("reached");
    ALT({ Arb<T> s; BALANCED("initially", s.o); s.o.reset(); BALANCED("reset", s.o); s.destroy(); vc_assert(live(1) == 0, "destroy after reset"); } NONE_ALIVE)
    ALT({ Arb<T> s; s.o = opt::none; BALANCED("assign none", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; s.o = x; BALANCED("assign convertible value", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; s.o.emplace(x); BALANCED("emplace", s.o); s.o.emplace(x, y); BALANCED("emplace twice", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; s.o.try_emplace(x, y); BALANCED("try_emplace", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { T t(x); s.o = std::move(t); vc_assert(live(1) == 2, "assign r-value: one live object contained"); } BALANCED("assign r-value", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { opt::option<T> r(s.o.take()); vc_assert(!s.o.has_value(), "take empties"); BALANCED("take", s.o, r); } BALANCED("take result destroyed", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { opt::option<T> r(s.o.take_if([](const T& t) { T::need(t, "predicate sees a dead object"); return vc_nondet_bool(); })); BALANCED("take_if", s.o, r); } s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; s.o |= V{x}; BALANCED("operator|=", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; s.destroy(); vc_assert(live(1) == 0, "destroying an option destroys its value"); } NONE_ALIVE)
    ALT({ O a(std::in_place, x); O b(x, y); O c; O d(opt::none); BALANCED("constructors", a, b, c, d); } NONE_ALIVE)
}
template<class T>
void ops_moves() {
    using O = opt::option<T>;
    vc_cover("reached");
    ALT({ Arb<T> s; { O a(std::move(s.o)); BALANCED("move construction", s.o, a); } BALANCED("moved-to destroyed", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s, t; t.o = std::move(s.o); BALANCED("move assignment", s.o, t.o); s.destroy(); BALANCED("source destroyed", t.o); t.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; O& a = s.o; s.o = std::move(a); BALANCED("move self-assignment", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s, t; s.o.swap(t.o); BALANCED("swap", s.o, t.o); s.destroy(); t.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s, t; swap(s.o, t.o); BALANCED("free swap", s.o, t.o); s.destroy(); t.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; s.o.swap(s.o); BALANCED("swap with itself", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { O r(std::move(s.o).filter([](const T& t) { T::need(t, "predicate sees a dead object"); return vc_nondet_bool(); })); BALANCED("filter", s.o, r); } s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { O r(std::move(s.o).or_else([] { return vc_nondet_bool() ? opt::option<T>(V{7}) : opt::option<T>(); })); BALANCED("or_else", s.o, r); } s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { auto r = std::move(s.o).map([](T&& t) { return T(std::move(t)); }); BALANCED("map", s.o, r); } s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { auto r = std::move(s.o).and_then([](T&& t) { return vc_nondet_bool() ? opt::option<T>(std::move(t)) : opt::option<T>(); }); BALANCED("and_then", s.o, r); } s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { auto r = opt::zip(std::move(s.o), opt::option<u32>(1u)); vc_assert(live(1) == eng(s.o, r), "zip: live objects"); } BALANCED("zip result destroyed", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { auto r = opt::unzip(opt::zip(std::move(s.o), opt::option<u32>(1u))); BALANCED("unzip", s.o, std::get<0>(r)); } BALANCED("unzip result destroyed", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s, t; { O r(std::move(s.o) | std::move(t.o)); BALANCED("operator|", s.o, t.o, r); } s.destroy(); t.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s, t; { O r(std::move(s.o) ^ std::move(t.o)); BALANCED("operator^", s.o, t.o, r); } s.destroy(); t.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s, t; { O r(s.o & std::move(t.o)); BALANCED("operator&", s.o, t.o, r); } s.destroy(); t.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { T r(std::move(s.o).value_or(T(V{1}))); vc_assert(live(1) == eng(s.o) + 1, "value_or"); } BALANCED("value_or result destroyed", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { T r(std::move(s.o).value_or_construct(V{1})); vc_assert(live(1) == eng(s.o) + 1, "value_or_construct"); } s.destroy(); } NONE_ALIVE)
}
template<class T>
void ops_copies() {
    using O = opt::option<T>;
    const V x{vc_nondet_u32()}, y{vc_nondet_u32()};
    vc_cover("reached");
    ALT({ Arb<T> s; { O a(s.o); BALANCED("copy construction", s.o, a); } BALANCED("copy destroyed", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s, t; t.o = s.o; BALANCED("copy assignment", s.o, t.o); s.destroy(); BALANCED("source destroyed", t.o); t.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; O& a = s.o; s.o = a; BALANCED("copy self-assignment", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { T t(x); s.o = t; vc_assert(live(1) == 2, "assign l-value: one live object contained"); } s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; s.o.emplace(std::initializer_list<V>{x, y}, y); BALANCED("emplace list", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; opt::option<V> v; if (vc_nondet_bool()) { v = x; } s.o = v; BALANCED("converting assignment", s.o); { O c(v); BALANCED("converting construction", s.o, c); } s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { O r(s.o.filter([](const T& t) { T::need(t, "predicate sees a dead object"); return vc_nondet_bool(); })); BALANCED("l-value filter", s.o, r); } s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { auto r = s.o.map([](T& t) { return T(t); }); BALANCED("l-value map", s.o, r); } s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { opt::option<opt::option<T>> n(s.o); vc_assert(n.has_value() || !s.h, "nesting keeps the value"); vc_assert(live(1) == eng(s.o) + (n.has_value() ? eng(n.get()) : 0), "nested option: live objects"); n.reset(); BALANCED("nested reset", s.o); } s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { opt::option<opt::option<T>> n(std::in_place, s.o); auto f = opt::flatten(std::move(n)); vc_assert(live(1) == 3 * eng(s.o) && f.has_value() == s.h, "flatten: live objects"); } BALANCED("nested destroyed", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s, t; { O r(s.o | t.o); BALANCED("l-value operator|", s.o, t.o, r); } s.destroy(); t.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s, t; { O r(s.o ^ t.o); BALANCED("l-value operator^", s.o, t.o, r); } s.destroy(); t.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s, t; { O r(s.o & t.o); BALANCED("l-value operator&", s.o, t.o, r); } s.destroy(); t.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; s.o |= s.o; BALANCED("operator|= with itself", s.o); s.destroy(); } NONE_ALIVE)
    ALT({ Arb<T> s; { auto r = opt::make_option(T(x)); BALANCED("make_option", s.o, r); auto q = opt::make_option<T>(x, y); BALANCED("make_option in place", s.o, r, q); } s.destroy(); } NONE_ALIVE)
}
// trivially destructible elements: a live object is assigned to, never constructed over; an absent one is constructed
template<class T>
void triv_assign() {
    const V x{vc_nondet_u32()};
    Arb<T> s;
    vc_cover("reached");
    const u8 h0 = how_of(s.o);
    ALT({ s.o = x; vc_assert(is_val(s.o, x.x) && how_of(s.o) == how_vassign<T>(s.h), "value assignment assigns to a live object and constructs an absent one"); })
    ALT({ T t(x); s.o = std::move(t); vc_assert(is_val(s.o, x.x) && how_of(s.o) == how_massign<T>(s.h, BUILT), "r-value assignment assigns to a live object and constructs an absent one"); })
    ALT({ const T t(x); s.o = t; vc_assert(is_val(s.o, x.x) && how_of(s.o) == how_cassign<T>(s.h, BUILT), "l-value assignment assigns to a live object and constructs an absent one"); })
    ALT({ const opt::option<T> t(x); s.o = t; vc_assert(is_val(s.o, x.x) && (Ops<T>::cc == Ops<T>::ca) ? how_of(s.o) == how_cassign<T>(s.h, BUILT) : true, "copy assignment assigns to a live object and constructs an absent one"); })
    ALT({ opt::option<T> t(x); s.o = std::move(t); vc_assert(is_val(s.o, x.x) && (Ops<T>::mc == Ops<T>::ma) ? how_of(s.o) == how_massign<T>(s.h, BUILT) : true, "move assignment assigns to a live object and constructs an absent one"); })
    ALT({ opt::option<V> v; if (vc_nondet_bool()) { v = x; } const bool e = v.has_value(); s.o = v; vc_assert(is_state(s.o, e, x.x) && (!e || how_of(s.o) == how_vassign<T>(s.h)), "converting assignment assigns to a live object and constructs an absent one"); })
    ALT({ opt::option<V> v; if (vc_nondet_bool()) { v = x; } const bool e = v.has_value(); s.o = std::move(v); vc_assert(is_state(s.o, e, x.x) && (!e || how_of(s.o) == how_vassign<T>(s.h)), "converting move assignment assigns to a live object and constructs an absent one"); })
    ALT({ s.o.emplace(x); vc_assert(is_val(s.o, x.x) && how_of(s.o) == BUILT, "emplace constructs a new object"); })
    ALT({ s.o.try_emplace(x); vc_assert(how_of(s.o) == (s.h ? h0 : BUILT), "try_emplace leaves a live object alone"); })
    ALT({ s.o = T(x); vc_assert(is_val(s.o, x.x), "assign"); s.o.reset(); vc_assert(!s.o.has_value(), "reset"); })
}
// reads never change what is alive
template<class T>
void ops_reads() {
    Arb<T> s;
    vc_cover("reached");
    const u32 c = g_ctor, d = g_dtor;
    const opt::option<T>& o = s.o;
    vc_assert(o.has_value() == s.h, "has_value");
    vc_assert((o == opt::none) == !s.h, "none comparison");
    vc_assert(o.ptr_or_null() != nullptr || !s.h, "ptr_or_null");
    for (const T& t : o) { T::need(t, "iteration visits a dead object"); }
    for (T& t : s.o) { T::need(t, "iteration visits a dead object"); }
    (void)o.has_value_and([](const T& t) { T::need(t, "predicate sees a dead object"); return false; });
    o.inspect([](const T& t) { T::need(t, "function sees a dead object"); });
    s.o.inspect([](T& t) { T::need(t, "function sees a dead object"); });
    (void)o.map_or(1u, [](const T& t) { T::need(t, "function sees a dead object"); return 2u; });
    (void)o.map_or_else([] { return 1u; }, [](const T& t) { T::need(t, "function sees a dead object"); return 2u; });
    vc_assert(g_ctor == c && g_dtor == d, "queries construct and destroy nothing");
    BALANCED("queries", o);
    s.destroy();
}
// element with a non-trivial destructor inside aggregates: the option destroys the whole
struct Two { Abs<1> a; Abs<1> b; };
VC_SPEC(C03_aggregate) {
    const bool h = vc_nondet_bool();
    vc_cover("reached");
    {
        opt::option<Two> o;
        if (h) { o.emplace(V{1}, V{2}); }
        vc_assert(live(1) == (h ? 2u : 0u), "aggregate emplaced");
        opt::option<Two> p(o);
        vc_assert(live(1) == (h ? 4u : 0u), "aggregate copied");
        o.reset();
        vc_assert(live(1) == (h ? 2u : 0u), "aggregate reset");
        o = std::move(p);
        vc_assert(live(1) == (h ? 4u : 0u), "aggregate moved");
    }
    vc_assert(live(1) == 0, "aggregates destroyed");
}
#if PART == 1
#define I1(NAME, ...) VC_SPEC(C03_mutators_##NAME) { ops_mutators<__VA_ARGS__>(); } VC_SPEC(C03_reads_##NAME) { ops_reads<__VA_ARGS__>(); }
FAM_ABS(I1) FAM_MOVEONLY(I1)
#define I4(NAME, ...) VC_SPEC(C03_assign_##NAME) { triv_assign<__VA_ARGS__>(); }
FAM_TRIV_ALL(I4) FAM_TRIV_ALL_T(I4)
#else
#define I2(NAME, ...) VC_SPEC(C03_moves_##NAME) { ops_moves<__VA_ARGS__>(); }
#define I3(NAME, ...) VC_SPEC(C03_copies_##NAME) { ops_copies<__VA_ARGS__>(); }
FAM_ABS(I2) FAM_MOVEONLY(I2) FAM_ABS(I3)
#endif
