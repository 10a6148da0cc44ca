// C09: mapping operations apply the function exactly when engaged
// vc-part: -DPART=1
// vc-part: -DPART=2
#include "abs.hpp"

inline u32 g_calls = 0;
#define KEPT vc_assert(is_state(s.o, s.h, s.v), "an l-value option is not modified"); s.destroy();
#define ONCE vc_assert(g_calls == (s.h ? 1u : 0u), "the function is called exactly once when engaged and never otherwise");
#define PASSES(CAT, L) vc_assert(std::is_same_v<decltype(t), CAT>, L " passes the value with the option's value category"); vc_assert(std::addressof(t) == p, "the function gets the contained object"); ++g_calls;

template<class T>
void map_ops() {
    using O = opt::option<T>;
    Arb<T> s;
    vc_cover("reached");
    O& o = s.o;
    const O& c = s.o;
    const T* const p = c.ptr_or_null();
    g_calls = 0;
    const u64 e = s.h ? vc_uf(UF_FN, s.v, 0) : 0;
#define MAPF(CAT, L) [&](auto&& t) -> u64 { PASSES(CAT, L) return vc_uf(UF_FN, M<T>::val(t), 0); }
    ALT({ auto r = o.map(MAPF(T&, "map &")); vc_assert(is_state(r, s.h, e), "map & yields the function's result"); ONCE KEPT })
    ALT({ auto r = c.map(MAPF(const T&, "map const&")); vc_assert(is_state(r, s.h, e), "map const& yields the function's result"); ONCE KEPT })
    ALT({ auto r = std::move(o).map(MAPF(T&&, "map &&")); vc_assert(is_state(r, s.h, e), "map && yields the function's result"); ONCE KEPT })
    ALT({ auto r = std::move(c).map(MAPF(const T&&, "map const&&")); vc_assert(is_state(r, s.h, e), "map const&& yields the function's result"); ONCE KEPT })
    // results that are themselves sparse or nested
    ALT({ auto r = c.map([&](const T& t) -> bool { ++g_calls; return (vc_uf(UF_PRED, M<T>::val(t), 0) & 1) != 0; }); static_assert(std::is_same_v<decltype(r), opt::option<bool>>); vc_assert(is_state(r, s.h, s.h ? vc_uf(UF_PRED, s.v, 0) & 1 : 0), "map to bool"); ONCE KEPT })
    ALT({ auto r = c.map([&](const T&) -> opt::option<u32> { ++g_calls; return opt::none; }); vc_assert(r.has_value() == s.h, "map to an option nests"); if (s.h) vc_assert(!r.get().has_value(), "map to an empty option holds an empty option"); ONCE KEPT })
    ALT({ auto r = c.map([&](const T&) -> opt::option<bool> { ++g_calls; return true; }); vc_assert(r.has_value() == s.h, "map to an option nests"); if (s.h) vc_assert(is_val(r.get(), 1), "map to an engaged option holds an engaged option"); ONCE KEPT })
    // mapping to references
    ALT({ auto r = o.map([&](T& t) -> T& { ++g_calls; return t; }); static_assert(std::is_same_v<decltype(r), opt::option<T&>>); vc_assert(r.ptr_or_null() == p, "map to a reference refers to the same object"); ONCE KEPT })
    s.destroy();
}
template<class R>
void map_to() {                                                     // the result is constructed from the function's result
    Arb<u32> s;
    vc_cover("reached");
    g_calls = 0;
    ALT({ { auto r = s.o.map([&](u32& v) { ++g_calls; return M<R>::make(v); }); static_assert(std::is_same_v<decltype(r), opt::option<R>>); vc_assert(is_state(r, s.h, s.h ? M<R>::lift(u32(s.v)) : 0), "map holds the function's result"); if constexpr (Ops<R>::obs) { if (s.h) vc_assert(how_of(r) == BUILT, "map constructs the result in place"); } } ONCE KEPT })
    ALT({ { auto r = std::move(s.o).map([&](u32&& v) { ++g_calls; return M<R>::make(v); }); vc_assert(is_state(r, s.h, s.h ? M<R>::lift(u32(s.v)) : 0), "map && holds the function's result"); } ONCE KEPT })
    s.destroy();
}
template<class T>
void and_then_ops() {
    using O = opt::option<T>;
    Arb<T> s;
    vc_cover("reached");
    O& o = s.o;
    const O& c = s.o;
    const T* const p = c.ptr_or_null();
    g_calls = 0;
    const bool eh = s.h && (vc_uf(UF_PRED, s.v, 1) & 1) != 0;
    const u64 ev = s.h ? vc_uf(UF_FN, s.v, 1) : 0;
#define THENF(CAT, L) [&](auto&& t) -> opt::option<u64> { PASSES(CAT, L) const u64 v = M<T>::val(t); if ((vc_uf(UF_PRED, v, 1) & 1) == 0) return opt::none; return vc_uf(UF_FN, v, 1); }
    ALT({ auto r = o.and_then(THENF(T&, "and_then &")); vc_assert(is_state(r, eh, ev), "and_then & yields the function's result"); ONCE KEPT })
    ALT({ auto r = c.and_then(THENF(const T&, "and_then const&")); vc_assert(is_state(r, eh, ev), "and_then const& yields the function's result"); ONCE KEPT })
    ALT({ auto r = std::move(o).and_then(THENF(T&&, "and_then &&")); vc_assert(is_state(r, eh, ev), "and_then && yields the function's result"); ONCE KEPT })
    ALT({ auto r = std::move(c).and_then(THENF(const T&&, "and_then const&&")); vc_assert(is_state(r, eh, ev), "and_then const&& yields the function's result"); ONCE KEPT })
    s.destroy();
}
template<class T>
void predicates() {
    using O = opt::option<T>;
    Arb<T> s;
    vc_cover("reached");
    O& o = s.o;
    const O& c = s.o;
    const T* const p = c.ptr_or_null();
    g_calls = 0;
    const bool e = s.h && (vc_uf(UF_PRED, s.v, 2) & 1) != 0;
#define PREDF(CAT, L) [&](auto&& t) -> bool { PASSES(CAT, L) return (vc_uf(UF_PRED, M<T>::val(t), 2) & 1) != 0; }
    ALT({ vc_assert(o.has_value_and(PREDF(T&, "has_value_and &")) == e, "has_value_and & is the predicate's answer"); ONCE KEPT })
    ALT({ vc_assert(c.has_value_and(PREDF(const T&, "has_value_and const&")) == e, "has_value_and const& is the predicate's answer"); ONCE KEPT })
    ALT({ vc_assert(std::move(o).has_value_and(PREDF(T&&, "has_value_and &&")) == e, "has_value_and && is the predicate's answer"); ONCE KEPT })
    ALT({ vc_assert(std::move(c).has_value_and(PREDF(const T&&, "has_value_and const&&")) == e, "has_value_and const&& is the predicate's answer"); ONCE KEPT })
#define INSF(CAT, L) [&](auto&& t) { PASSES(CAT, L) }
    ALT({ auto& r = o.inspect(INSF(T&, "inspect &")); vc_assert(&r == &o, "inspect & returns the option"); ONCE KEPT })
    ALT({ auto& r = c.inspect(INSF(const T&, "inspect const&")); vc_assert(&r == &c, "inspect const& returns the option"); ONCE KEPT })
    ALT({ auto& r = std::move(o).inspect(INSF(T&&, "inspect &&")); vc_assert(&r == &o, "inspect && returns the option"); ONCE KEPT })
    ALT({ auto& r = std::move(c).inspect(INSF(const T&&, "inspect const&&")); vc_assert(&r == &c, "inspect const&& returns the option"); ONCE KEPT })
    s.destroy();
}
template<class T>
void filter_ops() {
    using O = opt::option<T>;
    Arb<T> s;
    vc_cover("reached");
    O& o = s.o;
    const O& c = s.o;
    const T* const p = c.ptr_or_null();
    g_calls = 0;
    const bool e = s.h && (vc_uf(UF_PRED, s.v, 3) & 1) != 0;
#define FILTF [&](auto&& t) -> bool { vc_assert(std::addressof(t) == p, "the predicate gets the contained object"); ++g_calls; return (vc_uf(UF_PRED, M<T>::val(t), 3) & 1) != 0; }
    if constexpr (std::is_copy_constructible_v<T>) {
        ALT({ { O r(o.filter(FILTF)); vc_assert(is_state(r, e, s.v), "filter & keeps the value iff the predicate holds"); } ONCE KEPT })
        ALT({ { O r(c.filter(FILTF)); vc_assert(is_state(r, e, s.v), "filter const& keeps the value iff the predicate holds"); } ONCE KEPT })
        ALT({ { O r(std::move(c).filter(FILTF)); vc_assert(is_state(r, e, s.v), "filter const&& keeps the value iff the predicate holds"); } ONCE KEPT })
    }
    if constexpr (std::is_copy_constructible_v<T>) {
#define FILTV [&](T t) -> bool { ++g_calls; return (vc_uf(UF_PRED, M<T>::val(t), 3) & 1) != 0; }
        ALT({ { O r(o.filter(FILTV)); vc_assert(is_state(r, e, s.v), "filter & with a by-value predicate"); } ONCE KEPT })
        ALT({ { O r(c.filter(FILTV)); vc_assert(is_state(r, e, s.v), "filter const& with a by-value predicate"); } ONCE KEPT })
        ALT({ { O r(std::move(c).filter(FILTV)); vc_assert(is_state(r, e, s.v), "filter const&& with a by-value predicate"); } ONCE KEPT })
        ALT({ { O r(std::move(o).filter(FILTV)); vc_assert(is_state(r, e, s.v), "filter && with a by-value predicate"); vc_assert(o.has_value() == s.h, "filter && leaves the option engaged iff it was"); if (s.h && !e) vc_assert(is_val(o, s.v), "filter && leaves a rejected value alone"); } ONCE s.destroy(); })
    }
    ALT({ { O r(std::move(o).filter(FILTF)); if constexpr (!std::is_const_v<T>) { NOCOPY("filter &&"); } vc_assert(is_state(r, e, s.v), "filter && keeps the value iff the predicate holds"); vc_assert(o.has_value() == s.h, "filter && leaves the option engaged iff it was"); if (s.h && !e) vc_assert(is_val(o, s.v), "filter && leaves a rejected value alone"); } ONCE s.destroy(); })
    s.destroy();
}
template<class T, class U>
void zip_with_ops() {
    Arb<T> a;
    Arb<U> b;
    vc_cover("reached");
    g_calls = 0;
    const T* const pa = a.o.ptr_or_null();
    const U* const pb = b.o.ptr_or_null();
    const bool h = a.h && b.h;
    const u64 e = h ? vc_uf(UF_FN2, a.v, b.v) : 0;
#define ZKEPT vc_assert(g_calls == (h ? 1u : 0u), "zip_with calls the function exactly when all options hold values"); vc_assert(is_state(a.o, a.h, a.v) && is_state(b.o, b.h, b.v), "zip_with does not modify its inputs"); a.destroy(); b.destroy();
    auto f = [&](auto&& x, auto&& y) -> u64 { ++g_calls; vc_assert(std::addressof(x) == pa && std::addressof(y) == pb, "zip_with passes the contained objects in order"); return vc_uf(UF_FN2, M<T>::val(x), M<U>::val(y)); };
#define ZCAT(X, Y, L) auto fc = [&](auto&& x, auto&& y) -> u64 { vc_assert(std::is_same_v<decltype(x), X> && std::is_same_v<decltype(y), Y>, "zip_with passes value categories (" L ")"); return f(x, y); };
    ALT({ ZCAT(T&, U&, "&, &") auto r = opt::zip_with(fc, a.o, b.o); vc_assert(is_state(r, h, e), "zip_with l-values"); ZKEPT })
    ALT({ ZCAT(T&&, U&&, "&&, &&") auto r = opt::zip_with(fc, std::move(a.o), std::move(b.o)); vc_assert(is_state(r, h, e), "zip_with r-values"); ZKEPT })
    ALT({ ZCAT(T&&, const U&, "&&, const&") auto r = opt::zip_with(fc, std::move(a.o), std::as_const(b.o)); vc_assert(is_state(r, h, e), "zip_with mixed"); ZKEPT })
    ALT({ ZCAT(const T&&, U&, "const&&, &") auto r = opt::zip_with(fc, std::move(std::as_const(a.o)), b.o); vc_assert(is_state(r, h, e), "zip_with mixed"); ZKEPT })
    ALT({ auto r = opt::zip_with(f, a.o, b.o); vc_assert(is_state(r, h, e), "zip_with l-values"); ZKEPT })
    ALT({ auto r = opt::zip_with(f, std::move(a.o), std::as_const(b.o)); vc_assert(is_state(r, h, e), "zip_with mixed value categories"); ZKEPT })
    ALT({ auto r = opt::zip_with(f, std::as_const(a.o), std::move(b.o)); vc_assert(is_state(r, h, e), "zip_with mixed value categories"); ZKEPT })
    ALT({ opt::zip_with([&](auto&& x, auto&& y) { ++g_calls; vc_assert(std::is_same_v<decltype(x), T&&> && std::is_same_v<decltype(y), const U&>, "zip_with passes value categories"); vc_assert(std::addressof(x) == pa && std::addressof(y) == pb, "zip_with passes the contained objects in order"); }, std::move(a.o), std::as_const(b.o)); ZKEPT })
    ALT({ auto r = opt::zip_with([&](auto&& x) -> u64 { ++g_calls; return vc_uf(UF_FN, M<T>::val(x), 0); }, a.o); vc_assert(is_state(r, a.h, a.h ? vc_uf(UF_FN, a.v, 0) : 0), "zip_with one option"); a.destroy(); b.destroy(); })
    a.destroy(); b.destroy();
}
// the function is called with the value category it was passed with
template<class R>
void callee_map() {
    Arb<u32> s;
    vc_cover("reached");
    using O = opt::option<u32>;
    O& o = s.o;
    const O& c = s.o;
    auto f = [] { return M<R>::make(5); };
    ALT(callee_category(s.h, f, [&](auto&& fn) { (void)o.map(FWD(fn)); });)
    ALT(callee_category(s.h, f, [&](auto&& fn) { (void)c.map(FWD(fn)); });)
    ALT(callee_category(s.h, f, [&](auto&& fn) { (void)std::move(o).map(FWD(fn)); });)
    ALT(callee_category(s.h, f, [&](auto&& fn) { (void)std::move(c).map(FWD(fn)); });)
    ALT(callee_category(s.h, f, [&](auto&& fn) { (void)opt::zip_with(FWD(fn), o); });)
}
#if PART == 1
inline u32 g_cell;
VC_SPEC(C09_callee_others) {
    Arb<u32> s;
    vc_cover("reached");
    using O = opt::option<u32>;
    O& o = s.o;
    const O& c = s.o;
    const bool b = vc_nondet_bool();
    auto t = [&] { return b; };
    auto q = [&] { return b ? opt::option<bool>(true) : opt::option<bool>(); };
    auto v = [] {};
    auto r = []() -> u32& { return g_cell; };
    ALT(callee_category(s.h, q, [&](auto&& fn) { (void)o.and_then(FWD(fn)); });)
    ALT(callee_category(s.h, q, [&](auto&& fn) { (void)c.and_then(FWD(fn)); });)
    ALT(callee_category(s.h, q, [&](auto&& fn) { (void)std::move(o).and_then(FWD(fn)); });)
    ALT(callee_category(s.h, q, [&](auto&& fn) { (void)std::move(c).and_then(FWD(fn)); });)
    ALT(callee_category(s.h, t, [&](auto&& fn) { (void)o.has_value_and(FWD(fn)); });)
    ALT(callee_category(s.h, t, [&](auto&& fn) { (void)c.has_value_and(FWD(fn)); });)
    ALT(callee_category(s.h, t, [&](auto&& fn) { (void)std::move(o).has_value_and(FWD(fn)); });)
    ALT(callee_category(s.h, t, [&](auto&& fn) { (void)std::move(c).has_value_and(FWD(fn)); });)
    ALT(callee_category(s.h, t, [&](auto&& fn) { (void)o.filter(FWD(fn)); });)
    ALT(callee_category(s.h, t, [&](auto&& fn) { (void)c.filter(FWD(fn)); });)
    ALT(callee_category(s.h, t, [&](auto&& fn) { (void)std::move(o).filter(FWD(fn)); });)
    ALT(callee_category(s.h, t, [&](auto&& fn) { (void)std::move(c).filter(FWD(fn)); });)
    ALT(callee_category(s.h, v, [&](auto&& fn) { (void)o.inspect(FWD(fn)); });)
    ALT(callee_category(s.h, v, [&](auto&& fn) { (void)c.inspect(FWD(fn)); });)
    ALT(callee_category(s.h, v, [&](auto&& fn) { (void)std::move(o).inspect(FWD(fn)); });)
    ALT(callee_category(s.h, v, [&](auto&& fn) { (void)std::move(c).inspect(FWD(fn)); });)
    ALT(callee_category(s.h, v, [&](auto&& fn) { opt::zip_with(FWD(fn), o, c); });)
    ALT(callee_category(s.h, r, [&](auto&& fn) { vc_assert(o.map(FWD(fn)).ptr_or_null() == (s.h ? &g_cell : nullptr), "map to a reference"); });)
    ALT(callee_category(s.h, r, [&](auto&& fn) { vc_assert(opt::zip_with(FWD(fn), std::move(o), c).ptr_or_null() == (s.h ? &g_cell : nullptr), "zip_with to a reference"); });)
}
#define I1(NAME, ...) VC_SPEC(C09_map_##NAME) { map_ops<__VA_ARGS__>(); } VC_SPEC(C09_and_then_##NAME) { and_then_ops<__VA_ARGS__>(); }
FAM_ALL(I1) FAM_OPT(I1) FAM_CONST(I1) FAM_CONST_MO(I1)
#define I3(NAME, ...) VC_SPEC(C09_callee_map_##NAME) { callee_map<__VA_ARGS__>(); }
I3(int, u32) I3(bool, bool) I3(pod, Pod) I3(abs, Abs<1>) I3(abs_t2, Abs<1, 2>) I3(triv15, Triv<15>) I3(triv0_t2, Triv<0, 2>) I3(mo, Abs<1, 0, true, false>) I3(opt_int, opt::option<u32>) I3(hos, Hos<0>)
VC_SPEC(C09_truth) {                                                // a predicate's answer need only convert to bool
    Arb<u32> a;
    const u32 b = vc_nondet_u32();
    vc_cover("reached");
    const auto& c = a.o;
    auto ex = [&](u32) { return Truth{b}; };
    auto in = [&](u32) { return b; };
    const bool yes = a.h && b != 0;
    vc_assert(is_state(c.filter(ex), yes, a.v) && is_state(c.filter(in), yes, a.v), "filter decides by the truth of the answer");
    vc_assert(is_state(a.o.filter(ex), yes, a.v) && is_state(opt::option<u32>(c).filter(in), yes, a.v), "filter decides by the truth of the answer");
    vc_assert(c.has_value_and(in) == yes && a.o.has_value_and(in) == yes && opt::option<u32>(c).has_value_and(in) == yes, "has_value_and is the truth of the answer");
}
VC_SPEC(C09_reentrant) {                                            // the function may change the option it is applied to: it is called once, and its result decides
    Arb<u32> a;
    const bool reset = vc_nondet_bool(), yes = vc_nondet_bool();
    const u32 n = vc_nondet_u32(), q = vc_nondet_u32();
    vc_cover("reached");
    opt::option<u32>& o = a.o;
    const bool h = a.h;
    u32 calls = 0;
    auto poke = [&] { ++calls; if (reset) { o.reset(); } else { o = n; } };
#define POKED vc_assert(calls == (h ? 1u : 0u), "the function is called once, exactly when engaged"); vc_assert(is_state(o, h && !reset, n), "the option is left as the function left it");
    ALT({ auto r = o.map([&](u32&) { poke(); return q; }); vc_assert(is_state(r, h, q), "map holds the function's result"); POKED })
    ALT({ auto r = std::as_const(o).map([&](const u32&) { poke(); return q; }); vc_assert(is_state(r, h, q), "map const& holds the function's result"); POKED })
    ALT({ auto r = o.and_then([&](u32&) { poke(); return yes ? opt::option<u32>(q) : opt::option<u32>(); }); vc_assert(is_state(r, h && yes, q), "and_then is the function's result"); POKED })
    ALT({ const bool r = o.has_value_and([&](u32&) { poke(); return yes; }); vc_assert(r == (h && yes), "has_value_and is the predicate's answer"); POKED })
    ALT({ o.inspect([&](u32&) { poke(); }); POKED })
    ALT({ auto r = opt::zip_with([&](u32&) { poke(); return q; }, o); vc_assert(is_state(r, h, q), "zip_with holds the function's result"); POKED })
}
struct Mem { u32 a; u64 f() const { return vc_uf(UF_FN, a, 7); } opt::option<u32> g() const { return (vc_uf(UF_PRED, a, 7) & 1) ? opt::option<u32>(a) : opt::none; } bool p() const { return (vc_uf(UF_PRED, a, 8) & 1) != 0; } };
VC_SPEC(C09_member_pointers) {
    const bool h = vc_nondet_bool();
    const u32 a = vc_nondet_u32();
    opt::option<Mem> o;
    if (h) { o = Mem{a}; }
    vc_cover("reached");
    vc_assert(is_state(o.map(&Mem::f), h, h ? vc_uf(UF_FN, a, 7) : 0), "map with a member function");
    auto r = o.map(&Mem::a);
    vc_assert(r.has_value() == h && (!h || *r == a), "map with a data member");
    vc_assert(is_state(o.and_then(&Mem::g), h && (vc_uf(UF_PRED, a, 7) & 1) != 0, a), "and_then with a member function");
    vc_assert(o.has_value_and(&Mem::p) == (h && (vc_uf(UF_PRED, a, 8) & 1) != 0), "has_value_and with a member function");
    auto q = o.filter(&Mem::p);
    vc_assert(q.has_value() == (h && (vc_uf(UF_PRED, a, 8) & 1) != 0) && (!q.has_value() || q->a == a), "filter with a member function");
}
VC_SPEC(C09_reference_option) {
    u32 x = vc_nondet_u32();
    const u32 x0 = x;
    opt::option<u32&> o;
    const bool h = vc_nondet_bool();
    if (h) { o = x; }
    vc_cover("reached");
    g_calls = 0;
    auto r = o.map([&](u32& t) { ++g_calls; vc_assert(&t == &x, "map passes the referent"); return t + 1; });
    vc_assert(is_state(r, h, u32(x0 + 1)) && g_calls == h, "map of a reference option");
    auto q = o.and_then([&](u32& t) -> opt::option<u32&> { vc_assert(&t == &x, "and_then passes the referent"); return t; });
    vc_assert(q.ptr_or_null() == (h ? &x : nullptr), "and_then of a reference option");
    const bool keep = vc_nondet_bool();
    auto f = o.filter([&](u32& t) { vc_assert(&t == &x, "filter passes the referent"); return keep; });
    vc_assert(f.ptr_or_null() == (h && keep ? &x : nullptr), "filter of a reference option");
    vc_assert(o.has_value_and([&](u32& t) { return &t == &x; }) == h, "has_value_and of a reference option");
    o.inspect([&](u32& t) { t = 5; });
    vc_assert(x == (h ? 5u : x0), "inspect of a reference option acts on the referent");
}
#else
#define I2(NAME, ...) VC_SPEC(C09_predicates_##NAME) { predicates<__VA_ARGS__>(); } VC_SPEC(C09_filter_##NAME) { filter_ops<__VA_ARGS__>(); } VC_SPEC(C09_map_to_##NAME) { map_to<__VA_ARGS__>(); }
FAM_ALL(I2) FAM_OPT(I2)
#define I2C(NAME, ...) VC_SPEC(C09_predicates_##NAME) { predicates<__VA_ARGS__>(); } VC_SPEC(C09_filter_##NAME) { filter_ops<__VA_ARGS__>(); }
FAM_CONST(I2C)
#define I2M(NAME, ...) VC_SPEC(C09_predicates_##NAME) { predicates<__VA_ARGS__>(); }
FAM_CONST_MO(I2M)
VC_SPEC(C09_zip_with_int_abs) { zip_with_ops<u32, Abs<1>>(); }
VC_SPEC(C09_zip_with_abst_ptr) { zip_with_ops<Abs<1, 2>, u32*>(); }
VC_SPEC(C09_zip_with_bool_mo) { zip_with_ops<bool, Abs<2, 0, true, false>>(); }
VC_SPEC(C09_zip_with_pod_float) { zip_with_ops<Pod, float>(); }
VC_SPEC(C09_zip_with_three) {
    Arb<u32> a; Arb<bool> b; Arb<u8> c;
    vc_cover("reached");
    g_calls = 0;
    const bool h = a.h && b.h && c.h;
    auto r = opt::zip_with([&](u32 x, bool y, u8 z) -> u64 { ++g_calls; return vc_uf(UF_FN2, x, u64(y) << 8 | z); }, a.o, b.o, c.o);
    vc_assert(is_state(r, h, h ? vc_uf(UF_FN2, a.v, a.h ? b.v << 8 | c.v : 0) : 0), "zip_with three options");
    vc_assert(g_calls == h, "called exactly when all hold values");
}
#endif
