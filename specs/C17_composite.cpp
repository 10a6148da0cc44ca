// C17: composite element types and user-declared reserved values.
// vc-part: -DPART=1
// vc-part: -DPART=2
// vc-part: -DPART=3
#include "legit.hpp"

template<class T> using Tr = opt::option_traits<T>;

// T's component C encodes emptiness: Sel describes which one
#define SEL(NAME, T_, C_, EXPR) struct NAME { using T = T_; using C = C_; static C* comp(T* t) { return std::addressof(EXPR); } static const C* comp(const T* x) { T* t = const_cast<T*>(x); return std::addressof(EXPR); } };
#define CM ,

enum class E8 : u8 { a, b, c };
inline bool legit_enum(E8, u64 x) { return x <= 3; }
struct TL {                                                         // tuple-like, member get
    u32 a; bool b; u8 c;
    template<std::size_t I> auto& get() { if constexpr (I == 0) return a; else if constexpr (I == 1) return b; else return c; }
    template<std::size_t I> const auto& get() const { if constexpr (I == 0) return a; else if constexpr (I == 1) return b; else return c; }
};
namespace adl {
struct TA { u32* p; u8 x; Triv<0, 2> t; };                          // tuple-like, get found by ADL
template<std::size_t I> auto& get(TA& v) { if constexpr (I == 0) return v.x; else if constexpr (I == 1) return v.t; else return v.p; }
template<std::size_t I> const auto& get(const TA& v) { if constexpr (I == 0) return v.x; else if constexpr (I == 1) return v.t; else return v.p; }
}
template<> struct std::tuple_size<TL> : std::integral_constant<std::size_t, 3> {};
template<> struct std::tuple_element<0, TL> { using type = u32; };
template<> struct std::tuple_element<1, TL> { using type = bool; };
template<> struct std::tuple_element<2, TL> { using type = u8; };
template<> struct std::tuple_size<adl::TA> : std::integral_constant<std::size_t, 3> {};
template<> struct std::tuple_element<0, adl::TA> { using type = u8; };
template<> struct std::tuple_element<1, adl::TA> { using type = Triv<0 VC_COMMA 2>; };
template<> struct std::tuple_element<2, adl::TA> { using type = u32*; };
class TP {                                                          // tuple-like whose members are private: only its get() reaches them
    u32 a; bool b; u8 c;
public:
    TP(u32 x, bool y, u8 z) : a(x), b(y), c(z) {}
    template<std::size_t I> auto& get() { if constexpr (I == 0) return c; else if constexpr (I == 1) return a; else return b; }
    template<std::size_t I> const auto& get() const { if constexpr (I == 0) return c; else if constexpr (I == 1) return a; else return b; }
};
template<> struct std::tuple_size<TP> : std::integral_constant<std::size_t, 3> {};
template<> struct std::tuple_element<0, TP> { using type = u8; };
template<> struct std::tuple_element<1, TP> { using type = u32; };
template<> struct std::tuple_element<2, TP> { using type = bool; };
struct Agg1 { u32 a; bool b; u8 c; };
struct Agg2 { bool b; float f; u32 x; };                            // float offers more levels than bool
struct Agg3 { u8 a; E8 e; u32* p; double d; };                       // the pointer offers most
struct Agg4 { u16 a; Agg1 in; float f; };                            // float (256) over the nested aggregate (254)
struct Agg5 { u64 x; Agg1 in; };

using P12 = std::pair<Triv<0, 1>, Triv<0, 2>>;
using P21 = std::pair<Triv<0, 2>, Triv<0, 1>>;
using P03 = std::pair<u32, Triv<0, 3>>;
using P30 = std::pair<Triv<15, 3>, u8>;
using Pbf = std::pair<bool, float>;
using Ppb = std::pair<u32*, bool>;
using Pnest = std::pair<u16, std::pair<u8, bool>>;
using T1 = std::tuple<Triv<0, 3>, u32, Triv<0, 2>>;
using T2 = std::tuple<u8, Triv<0, 2>, Triv<0, 3>, bool, u32>;
using T3 = std::tuple<u32, u8, Triv<0, 1>>;
using T4 = std::tuple<bool, u32*, float>;
using A1 = std::array<Triv<0, 2>, 3>;
using A2 = std::array<bool, 4>;
using A3 = std::array<P12, 2>;
using A1b = std::array<bool, 1>;
using A1p = std::array<u32*, 1>;
using Pcb = std::pair<const double, bool>;                           // a const component is never written: the other one encodes
using Pbc = std::pair<bool, u32* const>;
using Tcf = std::tuple<u8, u32* const, float, const E8>;
struct AggC { const double d; u32 x; bool b; u32* const p; };
SEL(S_pcb, Pcb, bool, t->second) SEL(S_pbc, Pbc, bool, t->first) SEL(S_tcf, Tcf, float, std::get<2>(*t)) SEL(S_aggc, AggC, bool, t->b)
SEL(S_p12, P12, Triv<0 CM 2>, t->second) SEL(S_p21, P21, Triv<0 CM 2>, t->first) SEL(S_p03, P03, Triv<0 CM 3>, t->second)
SEL(S_p30, P30, Triv<15 CM 3>, t->first) SEL(S_pbf, Pbf, float, t->second) SEL(S_ppb, Ppb, u32*, t->first) SEL(S_pnest, Pnest, bool, t->second.second)
SEL(S_t1, T1, Triv<0 CM 3>, std::get<0>(*t)) SEL(S_t2, T2, bool, std::get<3>(*t)) SEL(S_t3, T3, Triv<0 CM 1>, std::get<2>(*t))
SEL(S_t4, T4, u32*, std::get<1>(*t)) SEL(S_a1, A1, Triv<0 CM 2>, (*t)[0]) SEL(S_a2, A2, bool, (*t)[0]) SEL(S_a3, A3, Triv<0 CM 2>, (*t)[0].second)
SEL(S_tp, TP, bool, t->get<2>()) SEL(S_a1b, A1b, bool, (*t)[0]) SEL(S_a1p, A1p, u32*, (*t)[0])
SEL(S_tl, TL, bool, t->b) SEL(S_ta, adl::TA, u32*, t->p)
SEL(S_agg1, Agg1, bool, t->b) SEL(S_agg2, Agg2, float, t->f) SEL(S_agg3, Agg3, u32*, t->p) SEL(S_agg4, Agg4, float, t->f) SEL(S_agg5, Agg5, bool, t->in.b)
using Mem = opt::member<Agg2, &Agg2::b>;                             // the user overrides the choice
using Mem2 = opt::member<Agg3, &Agg3::d>;
using Enf = opt::enforce<Agg1>;
SEL(S_mem, Mem, bool, static_cast<Agg2&>(*t).b) SEL(S_mem2, Mem2, double, static_cast<Agg3&>(*t).d) SEL(S_enf, Enf, bool, static_cast<Agg1&>(*t).b)
#define COMPOSITES(I)                                                                                                    \
    I(p12) I(p21) I(p03) I(p30) I(pbf) I(ppb) I(pnest) I(t1) I(t2) I(t3) I(t4) I(a1) I(a2) I(a3) I(tl) I(ta) I(tp) I(a1b) I(a1p) I(pcb) I(pbc) I(tcf) I(aggc)                \
    I(agg1) I(agg2) I(agg3) I(agg4) I(agg5) I(mem) I(mem2) I(enf)

template<class C> struct CV {                                       // a legitimate value of the encoding component
    static void legit(C* c) { Legit<C>::make(c); }
};
template<int K, u32 L> struct CV<Triv<K, L>> { static void legit(Triv<K, L>* c) { vc_havoc(c, sizeof *c); vc_assume(c->lvl == L); } };

template<class S>
bool rest_same(const void* buf, std::size_t off) {
    using T = typename S::T; using C = typename S::C;
    const u8* b = static_cast<const u8*>(buf);
    bool r = true;
    if (off != 0) { r = vc_same(b, off, 1); }
    if (off + sizeof(C) < sizeof(T)) { r = r && vc_same(b + off + sizeof(C), sizeof(T) - off - sizeof(C), 2); }
    return r;
}
template<class S>
void rest_snap(const void* buf, std::size_t off) {
    using T = typename S::T; using C = typename S::C;
    const u8* b = static_cast<const u8*>(buf);
    if (off != 0) { vc_snap(b, off, 1); }
    if (off + sizeof(C) < sizeof(T)) { vc_snap(b + off + sizeof(C), sizeof(T) - off - sizeof(C), 2); }
}
#if PART == 1
// --- traits of composites: exactly the component's --------------------------------------------------------------------
template<class S>
void composite() {
    using T = typename S::T; using C = typename S::C;
    vc_cover("reached");
    vc_assert(Tr<T>::max_level == Tr<C>::max_level, "a composite offers the levels of the component with the most");
    {
        Raw<T> a;                                                   // testing: only the component's bytes are defined
        vc_make_indeterminate(a.b, sizeof(T));
        C* c = S::comp(a.p());
        vc_havoc(c, sizeof(C));
        vc_assert(Tr<T>::get_level(a.p()) == Tr<C>::get_level(c), "the level of a composite is the level of that component, whatever the others hold");
    }
    {
        Raw<T> a;
        vc_havoc(a.b, sizeof(T));
        const std::size_t off = std::size_t(reinterpret_cast<u8*>(S::comp(a.p())) - a.b);
        rest_snap<S>(a.b, off);
        const u64 l = vc_nondet_u64();
        vc_assume(l < Tr<T>::max_level);
        Tr<T>::set_level(a.p(), l);
        vc_assert(rest_same<S>(a.b, off), "writing a level changes no other component");
        vc_assert(Tr<C>::get_level(S::comp(a.p())) == l && Tr<T>::get_level(a.p()) == l, "the level is written to the component");
    }
}
#define I(N) VC_SPEC(composite_##N) { composite<S_##N>(); }
COMPOSITES(I)
#undef I
// --- options of composites: every value whose component is legitimate is held unchanged ----------------------------------
template<class S>
void holds() {
    using T = typename S::T; using C = typename S::C;
    using O = opt::option<T>;
    alignas(O) unsigned char buf[sizeof(O)];
    vc_havoc(buf, sizeof buf);                                       // arbitrary components
    O& o = *reinterpret_cast<O*>(buf);
    vc_cover("reached");
    vc_assert(sizeof(O) == sizeof(T), "no flag");
    C* c = S::comp(reinterpret_cast<T*>(buf));
    const std::size_t off = std::size_t(reinterpret_cast<u8*>(c) - buf);
    CV<C>::legit(c);
    vc_snap(buf, sizeof buf, 3);
    vc_assert(o.has_value(), "a value whose encoding component is legitimate is a value");
    vc_assert(&o.get() == reinterpret_cast<T*>(buf) && vc_same(buf, sizeof buf, 3), "and is returned unchanged in all components");
    rest_snap<S>(buf, off);
    o.reset();
    vc_assert(!o.has_value() && o == opt::none, "a reset option is empty");
    vc_assert(rest_same<S>(buf, off), "emptying changes only the encoding component");
    O e;
    vc_assert(!e.has_value(), "a default-constructed option is empty");
}
#define I(N) VC_SPEC(holds_##N) { holds<S_##N>(); }
COMPOSITES(I)
#undef I

#elif PART == 2
// --- values go through the option component by component ---------------------------------------------------------------
template<class T, class Same>
void through(Same same, const T& v) {
    using O = opt::option<T>;
    vc_cover("reached");
    O a(v);
    vc_assert(a.has_value() && same(*a, v), "a composite value is held unchanged in all components");
    O b(a);
    vc_assert(b.has_value() && same(*b, v), "a copied option holds all components");
    O e;
    vc_assert(!e.has_value(), "empty");
    e = v;
    vc_assert(e.has_value() && same(*e, v), "an assigned composite is held in all components");
    e.reset();
    vc_assert(!e.has_value(), "empty");
    e = static_cast<O&&>(b);
    vc_assert(e.has_value() && same(*e, v), "a moved option holds all components");
    e = opt::none;
    vc_assert(!e.has_value(), "empty");
    e.emplace(v);
    vc_assert(e.has_value() && same(e.get(), v) && same(a.get(), v), "an emplaced composite is held in all components");
}
inline u32* np() { u64 a = vc_nondet_u64(); vc_assume(canonical(a)); return reinterpret_cast<u32*>(a); }
inline float nf() { float f; Legit<float>::make(&f); return f; }
inline double nd() { double f; Legit<double>::make(&f); return f; }
inline bool feq(const float& a, const float& b) { return rd<u32>(&a) == rd<u32>(&b); }
inline bool feq(const double& a, const double& b) { return rd<u64>(&a) == rd<u64>(&b); }
VC_SPEC(through_pair) {
    using T = std::pair<u32, bool>;
    through<T>([](const T& x, const T& y) { return x.first == y.first && x.second == y.second; }, T{vc_nondet_u32(), vc_nondet_bool()});
}
VC_SPEC(through_pair_ptr) {
    using T = std::pair<u32*, float>;
    through<T>([](const T& x, const T& y) { return x.first == y.first && feq(x.second, y.second); }, T{np(), nf()});
}
VC_SPEC(through_tuple) {
    using T = std::tuple<u8, double, u32, bool>;
    through<T>([](const T& x, const T& y) { return std::get<0>(x) == std::get<0>(y) && feq(std::get<1>(x), std::get<1>(y)) && std::get<2>(x) == std::get<2>(y) && std::get<3>(x) == std::get<3>(y); },
        T{vc_nondet_u8(), nd(), vc_nondet_u32(), vc_nondet_bool()});
}
VC_SPEC(through_array) {
    using T = std::array<bool, 3>;
    through<T>([](const T& x, const T& y) { return x[0] == y[0] && x[1] == y[1] && x[2] == y[2]; }, T{vc_nondet_bool(), vc_nondet_bool(), vc_nondet_bool()});
}
VC_SPEC(through_array1) {
    using T = std::array<bool, 1>;
    through<T>([](const T& x, const T& y) { return x[0] == y[0]; }, T{vc_nondet_bool()});
}
VC_SPEC(through_array0) {                                            // an empty array has no component: a flag
    using T = std::array<bool, 0>;
    through<T>([](const T& x, const T& y) { return x == y; }, T{});
    vc_assert(Tr<T>::max_level == Tr<std::array<u64, 0>>::max_level, "no levels of its own");
}
VC_SPEC(through_tp) {
    through<TP>([](const TP& x, const TP& y) { return x.get<0>() == y.get<0>() && x.get<1>() == y.get<1>() && x.get<2>() == y.get<2>(); }, TP(vc_nondet_u32(), vc_nondet_bool(), vc_nondet_u8()));
}
VC_SPEC(through_array_ptr) {
    using T = std::array<u32*, 2>;
    through<T>([](const T& x, const T& y) { return x[0] == y[0] && x[1] == y[1]; }, T{np(), np()});
}
VC_SPEC(through_agg) {
    through<Agg3>([](const Agg3& x, const Agg3& y) { return x.a == y.a && x.e == y.e && x.p == y.p && feq(x.d, y.d); }, Agg3{vc_nondet_u8(), E8::b, np(), nd()});
}
VC_SPEC(through_tl) {
    through<TL>([](const TL& x, const TL& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }, TL{vc_nondet_u32(), vc_nondet_bool(), vc_nondet_u8()});
}
// composites of which only const components could encode emptiness use a flag, whatever these components hold
template<class T, class Same>
void through_const(Same same, const T& v) {
    using O = opt::option<T>;
    vc_cover("reached");
    O a(v);
    vc_assert(a.has_value() && same(*a, v), "a composite value with const components is held unchanged");
    O b(a), c(static_cast<O&&>(a));
    vc_assert(b.has_value() && same(*b, v) && c.has_value() && same(*c, v), "copied and moved options hold all components");
    O e;
    vc_assert(!e.has_value(), "empty");
    e.emplace(v);
    vc_assert(e.has_value() && same(e.get(), v), "an emplaced composite is held in all components");
    e.reset();
    vc_assert(!e.has_value(), "empty");
}
VC_SPEC(through_const_ptr) {
    using T = std::pair<u32* const, u32>;                            // a map's value_type
    through_const<T>([](const T& x, const T& y) { return x.first == y.first && x.second == y.second; }, T{reinterpret_cast<u32*>(vc_nondet_u64()), vc_nondet_u32()});
}
VC_SPEC(through_const_double) {
    using T = std::pair<const double, u32>;
    u64 w = vc_nondet_u64(); double d; std::memcpy(&d, &w, 8);
    through_const<T>([](const T& x, const T& y) { return feq(x.first, y.first) && x.second == y.second; }, T{d, vc_nondet_u32()});
}
VC_SPEC(through_const_enum) {
    using T = std::pair<const E8, u32>;
    through_const<T>([](const T& x, const T& y) { return x.first == y.first && x.second == y.second; }, T{E8(vc_nondet_u8()), vc_nondet_u32()});
}
VC_SPEC(through_const_bool) {
    using T = std::tuple<u32, const bool>;
    through_const<T>([](const T& x, const T& y) { return std::get<0>(x) == std::get<0>(y) && std::get<1>(x) == std::get<1>(y); }, T{vc_nondet_u32(), vc_nondet_bool()});
}
struct AggCC { const float f; u32 x; };
VC_SPEC(through_const_agg) {
    u32 w = vc_nondet_u32(); float f; std::memcpy(&f, &w, 4);
    through_const<AggCC>([](const AggCC& x, const AggCC& y) { return feq(x.f, y.f) && x.x == y.x; }, AggCC{f, vc_nondet_u32()});
}
VC_SPEC(through_tracked) {                                          // components with destructors: each is destroyed exactly once
    using A = Abs<1>; using B = Abs<2, 2>;
    using T = std::pair<A, B>;
    const u32 x = vc_nondet_u32(), y = vc_nondet_u32();
    {
        const T v{A{V{x}}, B{V{y}}};
        through<T>([](const T& p, const T& q) { return p.first.v == q.first.v && p.second.v == q.second.v && A::alive(&p.first) && B::alive(&p.second); }, v);
    }
    vc_assert(live(1) == 0 && live(2) == 0, "every component was destroyed");
}
VC_SPEC(through_tracked_tuple) {
    using A = Abs<1, 3>; using B = Abs<2, 1>;
    using T = std::tuple<u32, B, A>;
    const u32 x = vc_nondet_u32(), y = vc_nondet_u32();
    {
        const T v{7, B{V{x}}, A{V{y}}};
        through<T>([](const T& p, const T& q) { return std::get<0>(p) == 7 && std::get<1>(p).v == std::get<1>(q).v && std::get<2>(p).v == std::get<2>(q).v; }, v);
    }
    vc_assert(live(1) == 0 && live(2) == 0, "every component was destroyed");
}

#else
// --- user-declared reserved values: exactly those ----------------------------------------------------------------------
// D: T, W (word type), constexpr n, W at(l): the l-th declared value, word(const T*)
template<class D>
void declared() {
    using T = typename D::T; using W = typename D::W;
    using O = opt::option<T>;
    vc_cover("reached");
    vc_assert(Tr<T>::max_level == D::n, "as many levels as declared reserved values");
    {
        Raw<T> a;
        vc_havoc(a.b, sizeof(T));
        const W w = D::word(a.p());
        const u64 l = Tr<T>::get_level(a.p());
        vc_assert((l < D::n) == D::reserved(w), "exactly the declared values are reserved");
        if (l < D::n) { vc_assert(D::at(l) == w, "each declared value stands for its own level"); }
    }
    {
        Raw<T> a;
        vc_havoc(a.b, sizeof(T));
        const u64 l = vc_nondet_u64();
        vc_assume(l < D::n);
        Tr<T>::set_level(a.p(), l);
        vc_assert(D::word(a.p()) == D::at(l), "a level is written as its declared value");
        vc_assert(Tr<T>::get_level(a.p()) == l, "and read back");
    }
    {
        Raw<T> a;                                                   // the option
        vc_havoc(a.b, sizeof(T));
        const W w = D::word(a.p());
        vc_assume(!D::reserved(w));
        vc_assert(sizeof(O) == sizeof(T), "no flag");
        O o(*a.p());
        vc_assert(o.has_value() && D::word(&*o) == w, "every other value is held unchanged");
        O e;
        vc_assert(!e.has_value() && e == opt::none, "a default-constructed option is empty");
        vc_assert(D::word(reinterpret_cast<const T*>(&e)) == D::at(0), "emptiness is encoded by the first declared value");
        e = *a.p();
        vc_assert(e.has_value() && D::word(&*e) == w, "an assigned value is held unchanged");
        o.reset();
        vc_assert(!o.has_value(), "a reset option is empty");
        o = e;
        vc_assert(o.has_value() && D::word(&*o) == w, "an assigned option's value is held unchanged");
    }
}
#define ENUM_DECL(NAME, U, BODY, N, AT, RES)                                                                             \
    enum class NAME : U BODY;                                                                                             \
    struct D_##NAME {                                                                                                     \
        using T = NAME; using W = U;                                                                                      \
        static constexpr u64 n = N;                                                                                       \
        static W word(const T* p) { return rd<W>(p); }                                                                    \
        static W at(u64 l) { return W(AT); }                                                                              \
        static bool reserved(W w) { return RES; }                                                                         \
    };                                                                                                                    \
    VC_SPEC(declared_##NAME) { declared<D_##NAME>(); }
ENUM_DECL(Es8, u8, { a CM SENTINEL = 200 CM b }, 1, 200, w == 200)
ENUM_DECL(Es32n, int, { SENTINEL = -1 CM a = 0 CM b }, 1, -1, w == -1)
ENUM_DECL(Es32min, int, { SENTINEL = -2147483647 - 1 CM a = 0 }, 1, int(0x80000000u), w == int(0x80000000u))
ENUM_DECL(Es64, u64, { a = 0 CM SENTINEL = 0xffffffffffffffff }, 1, 0xffffffffffffffff, w == 0xffffffffffffffff)
ENUM_DECL(Es0, u16, { SENTINEL = 0 CM a = 1 }, 1, 0, w == 0)
ENUM_DECL(Es8s, signed char, { SENTINEL = -128 CM a = 1 }, 1, -128, w == -128)
ENUM_DECL(Est8, u8, { a CM b CM SENTINEL_START = 250 }, 6, 250 + l, w >= 250)
ENUM_DECL(Est8s, signed char, { a = -3 CM b CM SENTINEL_START = 100 }, 28, 100 + l, w >= 100)
ENUM_DECL(Est8neg, signed char, { a = -128 CM b CM SENTINEL_START = -5 }, 133, -5 + int(l), w >= -5)
ENUM_DECL(Est32, int, { a = -3 CM b CM SENTINEL_START = 1000 }, 0x7fffffffu - 1000 + 1, 1000 + l, w >= 1000)
ENUM_DECL(Est32neg, int, { a = -2147483647 CM SENTINEL_START = -10 }, u64(0x80000000u) + 10, i64(l) - 10, w >= -10)
ENUM_DECL(Est32u, u32, { a = 0 CM SENTINEL_START = 0xfffffff0 }, 16, 0xfffffff0 + l, w >= 0xfffffff0)
ENUM_DECL(Est64, u64, { a = 0 CM SENTINEL_START = 5 }, u64(-1) - 4, 5 + l, w >= 5)
ENUM_DECL(Est64s, long, { a = -1 CM SENTINEL_START = 0x7fffffffffffffff }, 1, 0x7fffffffffffffff, w == 0x7fffffffffffffff)
ENUM_DECL(Ese8, u8, { a CM SENTINEL_START = 10 CM SENTINEL_END = 12 CM b = 13 }, 3, 10 + l, w >= 10 && w <= 12)
ENUM_DECL(Ese8s, signed char, { a = 1 CM SENTINEL_START = -4 CM SENTINEL_END = -2 CM b = -1 CM c = -5 }, 3, -4 + int(l), w >= -4 && w <= -2)
ENUM_DECL(Ese32, int, { a = 50 CM SENTINEL_START = -100 CM SENTINEL_END = 9 }, 110, i64(l) - 100, w >= -100 && w <= 9)
ENUM_DECL(Ese32one, u32, { a = 50 CM SENTINEL_START = 9 CM SENTINEL_END = 9 }, 1, 9, w == 9)
ENUM_DECL(Ese64, u64, { a = 1 CM SENTINEL_START = 0xfffffffffffffffe CM SENTINEL_END = 0xffffffffffffffff }, 2, 0xfffffffffffffffe + l, w >= 0xfffffffffffffffe)
ENUM_DECL(Ese64s, long, { a = 1 CM SENTINEL_START = -2 CM SENTINEL_END = 3 }, 6, i64(l) - 2, w >= -2 && w <= 3)
ENUM_DECL(Esw8, signed char, { a = 127 CM SENTINEL_START = -100 CM SENTINEL_END = 100 }, 201, int(l) - 100, w >= -100 && w <= 100)
ENUM_DECL(Esw8full, signed char, { a = -128 CM SENTINEL_START = -127 CM SENTINEL_END = 127 }, 255, int(l) - 127, w >= -127)
ENUM_DECL(Esw8t, signed char, { a = -128 CM SENTINEL_START = -127 }, 255, int(l) - 127, w >= -127)
ENUM_DECL(Esw8u, u8, { a = 255 CM SENTINEL_START = 0 CM SENTINEL_END = 254 }, 255, l, w <= 254)
ENUM_DECL(Esw16, short, { a = 32767 CM SENTINEL_START = -32768 CM SENTINEL_END = 32766 }, 65535, int(l) - 32768, w <= 32766)
ENUM_DECL(Esw16m, short, { a = 32767 CM SENTINEL_START = -20000 CM SENTINEL_END = 30000 }, 50001, int(l) - 20000, w >= -20000 && w <= 30000)
ENUM_DECL(Esw16u, u16, { a = 0 CM SENTINEL_START = 1 }, 65535, l + 1, w >= 1)
ENUM_DECL(Esw32, int, { a = 2147483647 CM SENTINEL_START = -2147483647 - 1 CM SENTINEL_END = 2147483646 }, 0xffffffffu, i64(l) - 2147483648ll, w <= 2147483646)
ENUM_DECL(Esw64, long, { a = 9223372036854775807l CM SENTINEL_START = -9223372036854775807l CM SENTINEL_END = 9223372036854775806l }, u64(-1) - 1, u64(l) + 0x8000000000000001u, w >= -9223372036854775807l && w <= 9223372036854775806l)
ENUM_DECL(Esw8end, signed char, { a = 1 CM SENTINEL_START = -128 CM SENTINEL_END = -128 }, 1, -128, w == -128)
ENUM_DECL(Es_char, char, { a = 1 CM SENTINEL = -1 }, 1, -1, w == -1)
// unscoped enumerations
struct UnscopedIn {
    enum Fixed : short { fa = 3, fb = 5, SENTINEL_START = -7, SENTINEL_END = 1 };
};
struct UnscopedIn2 { enum Free { a = 3, b = 5, SENTINEL = 9 }; };
struct D_unscoped_fixed {
    using T = UnscopedIn::Fixed; using W = short;
    static constexpr u64 n = 9;
    static W word(const T* p) { return rd<W>(p); }
    static W at(u64 l) { return W(int(l) - 7); }
    static bool reserved(W w) { return w >= -7 && w <= 1; }
};
enum NoFixed { nf_a, nf_b, nf_c = 5 };                                // no fixed underlying type: values 0..7
VC_SPEC(unscoped_nofixed) {
    using O = opt::option<NoFixed>;
    const u32 w = vc_nondet_u32();
    vc_assume(w <= 7);
    const NoFixed v = NoFixed(w);
    vc_cover("reached");
    O a(v), b(a), e;
    vc_assert(a.has_value() && *a == v && b.has_value() && *b == v, "every value of an enumeration without a fixed underlying type is held unchanged");
    vc_assert(!e.has_value(), "empty");
    e = v;
    vc_assert(e.has_value() && *e == v, "and assigned unchanged");
    e.reset();
    vc_assert(!e.has_value(), "empty");
}
VC_SPEC(declared_unscoped_fixed) { declared<D_unscoped_fixed>(); }

// PADDING members: 0 is a value, everything else is reserved
#define PADDING_DECL(NAME, P, N)                                                                                         \
    struct Pad_##NAME { u32 x; P PADDING{}; u8 y; };                                                                      \
    struct D_pad_##NAME {                                                                                                 \
        using T = Pad_##NAME; using W = P;                                                                                \
        static constexpr u64 n = N;                                                                                       \
        static W word(const T* p) { return p->PADDING; }                                                                  \
        static W at(u64 l) { return W(l + 1); }                                                                           \
        static bool reserved(W w) { return w != 0; }                                                                      \
    };                                                                                                                    \
    VC_SPEC(declared_pad_##NAME) { declared<D_pad_##NAME>(); }
PADDING_DECL(u8, u8, 255)
PADDING_DECL(u16, u16, 65535)
PADDING_DECL(u32, u32, 0xffffffffu)
PADDING_DECL(u64, u64, 0xffffffffffffffffu)
VC_SPEC(padding_members) {
    const u32 x = vc_nondet_u32();
    const u8 y = vc_nondet_u8();
    vc_cover("reached");
    using O = opt::option<Pad_u16>;
    O o(Pad_u16{x, 0, y});
    vc_assert(o.has_value() && o->x == x && o->y == y && o->PADDING == 0, "all members are held");
    alignas(O) unsigned char buf[sizeof(O)];
    vc_havoc(buf, sizeof buf);
    O& q = *reinterpret_cast<O*>(buf);
    Pad_u16& p = reinterpret_cast<Pad_u16&>(buf);
    p.PADDING = 0;
    const u32 px = p.x;
    const u8 py = p.y;
    vc_assert(q.has_value(), "a zero PADDING member means a value");
    q.reset();
    vc_assert(!q.has_value() && p.PADDING != 0 && p.x == px && p.y == py, "emptying changes only the PADDING member");
}
// sentinel<T, Values...>
#define SENT_DECL(NAME, U, N, AT, RES, ...)                                                                              \
    struct D_##NAME {                                                                                                     \
        using T = opt::sentinel<U, __VA_ARGS__>; using W = U;                                                              \
        static constexpr u64 n = N;                                                                                       \
        static W word(const T* p) { return rd<W>(p); }                                                                    \
        static W at(u64 l) { return W(AT); }                                                                              \
        static bool reserved(W w) { return RES; }                                                                         \
    };                                                                                                                    \
    VC_SPEC(declared_##NAME) { declared<D_##NAME>(); }
SENT_DECL(sent1, int, 1, -1, w == -1, -1)
SENT_DECL(sent3, int, 3, (l == 0 ? -1 : l == 1 ? 7 : 0), w == -1 || w == 7 || w == 0, -1, 7, 0)
SENT_DECL(sentu8, u8, 2, (l == 0 ? 255 : 0), w == 255 || w == 0, 255, 0)
SENT_DECL(sent64, u64, 2, (l == 0 ? 0xffffffffffffffffu : 0x8000000000000000u), w == 0xffffffffffffffffu || w == 0x8000000000000000u, 0xffffffffffffffffu, 0x8000000000000000u)
SENT_DECL(sentlong, long, 1, (-9223372036854775807l - 1), w == (-9223372036854775807l - 1), (-9223372036854775807l - 1))
VC_SPEC(sentinel_use) {
    using S = opt::sentinel<int, -1>;
    const u32 x = vc_nondet_u32();
    vc_assume(int(x) != -1);
    vc_cover("reached");
    opt::option<S> o;
    vc_assert(!o.has_value(), "empty");
    o = int(x);
    vc_assert(o.has_value() && *o == int(x) && o.get() == int(x), "a plain value assigned to a sentinel option is held");
    opt::option<S> p(int{int(x)});
    vc_assert(p.has_value() && *p == int(x) && p == o, "a plain value constructs a sentinel option");
    *p = -1;
    vc_assert(!p.has_value(), "writing the declared value empties the option");
    *o = 5;
    vc_assert(o.has_value() && int(*o) == 5, "writing another value does not");
    vc_assert(o.value_or(9) == 5 && p.value_or(9) == 9, "value_or");
}
// sentinel_f: comparison and assignment are the user's
struct Big { u32 a; u32 b; };
struct BigCmp { constexpr bool operator()(const Big& x, u32 v) const noexcept { return x.b == (v ^ 0x55u); } };
struct BigSet { constexpr void operator()(Big& x, u32 v) const noexcept { x.b = v ^ 0x55u; } };
struct D_sentf1 {
    using T = opt::sentinel_f<Big, BigCmp, BigSet, 3u>; using W = u32;
    static constexpr u64 n = 1;
    static W word(const T* p) { return static_cast<const Big&>(*p).b; }
    static W at(u64) { return 3u ^ 0x55u; }
    static bool reserved(W w) { return w == (3u ^ 0x55u); }
};
struct D_sentf3 {
    using T = opt::sentinel_f<Big, BigCmp, BigSet, 3u, 0u, 0xffffffffu>; using W = u32;
    static constexpr u64 n = 3;
    static W word(const T* p) { return static_cast<const Big&>(*p).b; }
    static W at(u64 l) { return (l == 0 ? 3u : l == 1 ? 0u : 0xffffffffu) ^ 0x55u; }
    static bool reserved(W w) { w ^= 0x55u; return w == 3 || w == 0 || w == 0xffffffffu; }
};
VC_SPEC(declared_sentf1) { declared<D_sentf1>(); }
VC_SPEC(declared_sentf3) { declared<D_sentf3>(); }
VC_SPEC(sentf_frame) {
    Raw<D_sentf3::T> r;
    vc_havoc(r.b, sizeof r.b);
    vc_cover("reached");
    const u32 a = rd<u32>(r.b);
    const u64 l = vc_nondet_u64();
    vc_assume(l < 3);
    Tr<D_sentf3::T>::set_level(r.p(), l);
    vc_assert(rd<u32>(r.b) == a, "only what the user's function writes is changed");
}
// sentinel_option_traits
struct Handle { int fd; constexpr bool operator==(const Handle& o) const { return fd == o.fd; } };
template<> struct opt::sentinel_option_traits<Handle> { static constexpr Handle sentinel_value{-1}; };
struct D_handle {
    using T = Handle; using W = int;
    static constexpr u64 n = 1;
    static W word(const T* p) { return p->fd; }
    static W at(u64) { return -1; }
    static bool reserved(W w) { return w == -1; }
};
VC_SPEC(declared_handle) { declared<D_handle>(); }
// a composite that contains user-declared ones
VC_SPEC(sentinel_in_pair) {
    using S = opt::sentinel<int, -1, -2>;
    using T = std::pair<u32, S>;
    const u32 x = vc_nondet_u32();
    const int y = int(vc_nondet_u32());
    vc_assume(y != -1 && y != -2);
    vc_cover("reached");
    opt::option<T> o(T{x, S{y}});
    vc_assert(sizeof o == sizeof(T) && o.has_value() && o->first == x && o->second == y, "held unchanged");
    o.reset();
    vc_assert(!o.has_value(), "empty");
    opt::option<opt::option<T>> oo(o);
    vc_assert(sizeof oo == sizeof(T) && oo.has_value() && !oo->has_value(), "nested");
    oo.reset();
    vc_assert(!oo.has_value(), "nested empty");
}
#endif
