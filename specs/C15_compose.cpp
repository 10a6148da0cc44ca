// C15: zip, unzip, flatten and tuple access relate exactly the contained parts
// vc-part: -DPART=1
// vc-part: -DPART=2
#include "abs.hpp"
#include <array>
#include <tuple>
#include <utility>

template<class T> bool holds(const T& t, u64 v) { return M<T>::ok(t) && M<T>::val(t) == v; }
#define KEPT2 vc_assert(is_state(a.o, a.h, a.v) && is_state(b.o, b.h, b.v), "l-value inputs are unchanged");
#define END2 a.destroy(); b.destroy();
template<class A, class B>
void zips() {
    Arb<A> a;
    Arb<B> b;
    vc_cover("reached");
    const bool h = a.h && b.h;
#define ZIPPED(R) vc_assert(std::is_same_v<decltype(R), opt::option<std::tuple<A, B>>>, "zip yields an option of a tuple"); vc_assert(R.has_value() == h, "zip is engaged iff all inputs are"); if (h) { vc_assert(holds(std::get<0>(*R), a.v) && holds(std::get<1>(*R), b.v), "zip carries the values in order"); }
    if constexpr (std::is_copy_constructible_v<A> && std::is_copy_constructible_v<B>) {
        ALT({ { auto r = opt::zip(a.o, b.o); ZIPPED(r) KEPT2 } END2 })
        ALT({ { auto r = opt::zip(std::as_const(a.o), std::as_const(b.o)); ZIPPED(r) KEPT2 } END2 })
        ALT({ { auto r = opt::zip(std::as_const(a.o), std::move(b.o)); ZIPPED(r) vc_assert(is_state(a.o, a.h, a.v), "l-value inputs are unchanged"); vc_assert(b.o.has_value() == b.h, "r-value inputs stay engaged"); if (!h) KEPT2 } END2 })
        ALT({ { auto z = opt::zip(a.o, b.o); auto [x, y] = opt::unzip(z); vc_assert(std::is_same_v<decltype(x), opt::option<A>> && std::is_same_v<decltype(y), opt::option<B>>, "unzip yields options of the parts"); vc_assert(is_state(x, h, a.v) && is_state(y, h, b.v), "unzip inverts zip"); ZIPPED(z) } END2 })
        ALT({ { auto z = opt::zip(a.o, b.o); auto [x, y] = opt::unzip(std::as_const(z)); vc_assert(is_state(x, h, a.v) && is_state(y, h, b.v), "unzip (const) inverts zip"); ZIPPED(z) } END2 })
    }
    ALT({ { auto r = opt::zip(std::move(a.o), std::move(b.o)); ZIPPED(r) vc_assert(a.o.has_value() == a.h && b.o.has_value() == b.h, "r-value inputs stay engaged"); if (!h) KEPT2 } END2 })
    ALT({ { auto [x, y] = opt::unzip(opt::zip(std::move(a.o), std::move(b.o))); vc_assert(is_state(x, h, a.v) && is_state(y, h, b.v), "unzip (move) inverts zip"); } END2 })
    END2
}
// zip_with calls the function exactly when all inputs are engaged, exactly once, with the contained objects in order and
// with each option's value category, and wraps what it returns
template<class A, class B>
void zip_withs() {
    Arb<A> a;
    Arb<B> b;
    u32 calls = 0;
    const bool h = a.h && b.h;
    const void* const pa = a.o.ptr_or_null();
    const void* const pb = b.o.ptr_or_null();
    vc_cover("reached");
#define AD(e) static_cast<const void*>(std::addressof(e))
#define CALLED vc_assert(calls == (h ? 1u : 0u), "zip_with calls the function exactly once when all inputs are engaged, and never otherwise"); KEPT2 END2
#define ARGS(x, y) ++calls; vc_assert(AD(x) == pa && AD(y) == pb, "zip_with passes the contained objects in order");
    ALT({ opt::zip_with([&](A& x, B& y) { ARGS(x, y) }, a.o, b.o); CALLED })
    ALT({ opt::zip_with([&](const A& x, const B& y) { ARGS(x, y) }, std::as_const(a.o), std::as_const(b.o)); CALLED })
    ALT({ opt::zip_with([&](A&& x, B& y) { ARGS(x, y) }, std::move(a.o), b.o); CALLED })
    ALT({ opt::zip_with([&](const A& x, B&& y) { ARGS(x, y) }, std::as_const(a.o), std::move(b.o)); CALLED })
    ALT({ opt::zip_with([&](const A&& x, const B&& y) { ARGS(x, y) }, std::move(std::as_const(a.o)), std::move(std::as_const(b.o))); CALLED })
    ALT({ auto r = opt::zip_with([&](A& x, B& y) { ARGS(x, y) return u32(vc_uf(UF_FN2, M<A>::val(x), M<B>::val(y))); }, a.o, b.o);
          vc_assert(std::is_same_v<decltype(r), opt::option<u32>> && is_state(r, h, h ? u32(vc_uf(UF_FN2, a.v, b.v)) : 0), "zip_with wraps what the function returns"); CALLED })
    ALT({ auto r = opt::zip_with([&](A&& x, B&& y) { ARGS(x, y) return u32(vc_uf(UF_FN2, M<A>::val(x), M<B>::val(y))); }, std::move(a.o), std::move(b.o));
          vc_assert(is_state(r, h, h ? u32(vc_uf(UF_FN2, a.v, b.v)) : 0), "zip_with && wraps what the function returns"); CALLED })
    ALT({ auto r = opt::zip_with([&](A& x, B& y) -> B& { ARGS(x, y) return y; }, a.o, b.o);
          vc_assert(std::is_same_v<decltype(r), opt::option<B&>> && r.has_value() == h && r.ptr_or_null() == (h ? pb : nullptr), "zip_with keeps a returned reference"); CALLED })
    ALT({ const bool e = vc_nondet_bool(); auto r = opt::zip_with([&](A& x, B& y) { ARGS(x, y) return e ? opt::option<u32>(7u) : opt::option<u32>(); }, a.o, b.o);
          vc_assert(std::is_same_v<decltype(r), opt::option<opt::option<u32>>> && r.has_value() == h && (!h || (r->has_value() == e && (!e || **r == 7u))), "zip_with wraps a returned option"); CALLED })
    END2
}
// get<I> / get<T> of an option of a tuple-like: exactly that component, with the option's value category
template<class Tup, class A, class B>
void components(opt::option<Tup>& o, bool h) {
    using std::get;
    const opt::option<Tup>& c = o;
    const A* const pa = h ? std::addressof(get<0>(o.get())) : nullptr;
    const B* const pb = h ? std::addressof(get<1>(o.get())) : nullptr;
#define PART_IS(E, TYPE, P, L) { auto r = E; vc_assert(std::is_same_v<decltype(r), opt::option<TYPE>>, L " yields " #TYPE); vc_assert(r.has_value() == h && r.ptr_or_null() == P, L " refers to that very component"); }
    ALT(PART_IS(opt::get<0>(o), A&, pa, "get<0>"))
    ALT(PART_IS(opt::get<1>(o), B&, pb, "get<1>"))
    ALT(PART_IS(opt::get<0>(c), const A&, pa, "get<0> const"))
    ALT(PART_IS(opt::get<1>(c), const B&, pb, "get<1> const"))
    ALT(PART_IS(opt::get<0>(std::move(o)), A&&, pa, "get<0> &&"))
    ALT(PART_IS(opt::get<1>(std::move(o)), B&&, pb, "get<1> &&"))
    ALT(PART_IS(opt::get<0>(std::move(c)), const A&&, pa, "get<0> const&&"))
    ALT(PART_IS(opt::get<1>(std::move(c)), const B&&, pb, "get<1> const&&"))
    if constexpr (!std::is_same_v<A, B>) {
        ALT(PART_IS(opt::get<A>(o), A&, pa, "get<A>"))
        ALT(PART_IS(opt::get<B>(o), B&, pb, "get<B>"))
        ALT(PART_IS(opt::get<A>(c), const A&, pa, "get<A> const"))
        ALT(PART_IS(opt::get<B>(c), const B&, pb, "get<B> const"))
        ALT(PART_IS(opt::get<A>(std::move(o)), A&&, pa, "get<A> &&"))
        ALT(PART_IS(opt::get<B>(std::move(o)), B&&, pb, "get<B> &&"))
        ALT(PART_IS(opt::get<A>(std::move(c)), const A&&, pa, "get<A> const&&"))
        ALT(PART_IS(opt::get<B>(std::move(c)), const B&&, pb, "get<B> const&&"))
    }
}
template<class Tup, class A, class B>
void tuple_of() {                                                   // an option of a tuple built from arbitrary parts
    const bool h = vc_nondet_bool();
    const u32 x = vc_nondet_u32(), y = vc_nondet_u32();
    opt::option<Tup> o;
    if (h) { o.emplace(M<A>::make(x), M<B>::make(y)); }
    vc_cover("reached");
    using std::get;
    if (h) { vc_assert(holds(get<0>(o.get()), M<A>::lift(x)) && holds(get<1>(o.get()), M<B>::lift(y)), "the parts are held in order"); }
    components<Tup, A, B>(o, h);
    vc_assert(o.has_value() == h, "the option is not modified");
    if (h) { vc_assert(holds(get<0>(o.get()), M<A>::lift(x)) && holds(get<1>(o.get()), M<B>::lift(y)), "the parts are not modified"); }
    if constexpr (std::is_copy_constructible_v<Tup>) {
        ALT({ auto p = opt::unzip(o); vc_assert(is_state(get<0>(p), h, M<A>::lift(x)) && is_state(get<1>(p), h, M<B>::lift(y)), "unzip yields the parts in order");
              vc_assert(o.has_value() == h && (!h || (holds(get<0>(o.get()), M<A>::lift(x)) && holds(get<1>(o.get()), M<B>::lift(y)))), "unzip leaves an l-value unchanged"); })
    }
    ALT({ auto p = opt::unzip(std::move(o)); vc_assert(is_state(get<0>(p), h, M<A>::lift(x)) && is_state(get<1>(p), h, M<B>::lift(y)), "unzip (move) yields the parts in order"); })
}
template<class T>
void flattens() {
    using O1 = opt::option<T>;
    using O2 = opt::option<O1>;
    using O3 = opt::option<O2>;
    Arb<T> s;
    vc_cover("reached");
    const bool l1 = vc_nondet_bool(), l2 = vc_nondet_bool();
    const bool h2 = l1 && s.h, h3 = l2 && l1 && s.h;
    ALT({ { O2 o; if (l1) { o.emplace(std::move(s.o)); } const T* const p = l1 ? o->ptr_or_null() : nullptr;
          auto r = opt::flatten(o); vc_assert(std::is_same_v<decltype(r), opt::option<T&>>, "flatten of an l-value refers to the innermost value"); vc_assert(r.has_value() == h2 && r.ptr_or_null() == p, "flatten & is engaged iff every level is");
          auto q = opt::flatten(std::as_const(o)); vc_assert(q.has_value() == h2 && q.ptr_or_null() == p, "flatten const& is engaged iff every level is");
          vc_assert(o.has_value() == l1, "flatten leaves an l-value unchanged"); if (l1) vc_assert(is_state(o.get(), s.h, s.v), "flatten leaves an l-value unchanged");
          auto m = opt::flatten(std::move(o)); vc_assert(std::is_same_v<decltype(m), opt::option<T>>, "flatten of an r-value yields the innermost value"); vc_assert(is_state(m, h2, s.v), "flatten && yields the innermost value"); } s.destroy(); })
    ALT({ { O3 o; if (l2) { o.emplace(); if (l1) { o->emplace(std::move(s.o)); } } const T* const p = l2 && l1 ? (*o)->ptr_or_null() : nullptr;
          auto r = opt::flatten(o); vc_assert(r.has_value() == h3 && r.ptr_or_null() == p, "flatten & of three levels");
          auto m = opt::flatten(std::move(o)); vc_assert(is_state(m, h3, s.v), "flatten && of three levels"); } s.destroy(); })
    ALT({ { auto r = opt::flatten(s.o); vc_assert(r.has_value() == s.h && r.ptr_or_null() == s.o.ptr_or_null(), "flatten of one level"); vc_assert(is_state(s.o, s.h, s.v), "flatten leaves an l-value unchanged"); auto m = opt::flatten(std::move(s.o)); vc_assert(is_state(m, s.h, s.v), "flatten && of one level"); } s.destroy(); })
    s.destroy();
}
#if PART == 1
VC_SPEC(C15_zip_int_abs) { zips<u32, Abs<1>>(); }
VC_SPEC(C15_zip_abs_int) { zips<Abs<1>, u32>(); }
VC_SPEC(C15_zip_ptr_bool) { zips<u32*, bool>(); }
VC_SPEC(C15_zip_same) { zips<u32, u32>(); }
VC_SPEC(C15_zip_abst_triv) { zips<Abs<1, 2>, Triv<15, 2>>(); }
VC_SPEC(C15_zip_mo_float) { zips<Abs<1, 0, true, false>, float>(); }
VC_SPEC(C15_zip_pod_mo) { zips<Pod, Abs<1, 1, true, false>>(); }
VC_SPEC(C15_zipwith_int_abs) { zip_withs<u32, Abs<1>>(); }
VC_SPEC(C15_zipwith_abst_bool) { zip_withs<Abs<1, 2>, bool>(); }
VC_SPEC(C15_zipwith_same) { zip_withs<u32, u32>(); }
VC_SPEC(C15_zipwith_mo_trivt) { zip_withs<Abs<1, 1, true, false>, Triv<15, 2>>(); }
VC_SPEC(C15_zipwith_opt_ptr) { zip_withs<opt::option<u32>, u32*>(); }
VC_SPEC(C15_zipwith_hos) { zip_withs<Hos<0>, HosV<2>>(); }
VC_SPEC(C15_zip_opt_int) { zips<opt::option<u32>, u32>(); }
VC_SPEC(C15_zip_hos) { zips<HosV<0>, Hos<2>>(); }
VC_SPEC(C15_zipwith_reference) {
    u32 x = vc_nondet_u32(), y = vc_nondet_u32();
    const u32 x0 = x, y0 = y;
    opt::option<u32&> a;
    opt::option<const u32&> b;
    const bool ha = vc_nondet_bool(), hb = vc_nondet_bool();
    if (ha) { a = x; }
    if (hb) { b = y; }
    u32 calls = 0;
    vc_cover("reached");
    opt::zip_with([&](u32& p, const u32& q) { ++calls; vc_assert(&p == &x && &q == &y, "zip_with passes the referents"); }, a, b);
    opt::zip_with([&](u32& p, const u32& q) { ++calls; vc_assert(&p == &x && &q == &y, "zip_with passes the referents (move)"); }, std::move(a), std::as_const(b));
    vc_assert(calls == (ha && hb ? 2u : 0u) && x == x0 && y == y0, "zip_with of reference options");
}
VC_SPEC(C15_zip_three) {
    Arb<u32> a; Arb<u8> b; Arb<u16> c;
    vc_cover("reached");
    const bool h = a.h && b.h && c.h;
    auto r = opt::zip(a.o, b.o, c.o);
    vc_assert(r.has_value() == h, "zip of three is engaged iff all are");
    if (h) { vc_assert(std::get<0>(*r) == a.v && std::get<1>(*r) == b.v && std::get<2>(*r) == c.v, "zip of three carries the values in order"); }
    auto [x, y, z] = opt::unzip(r);
    vc_assert(is_state(x, h, a.v) && is_state(y, h, b.v) && is_state(z, h, c.v), "unzip of three");
    auto f = opt::zip_with([](u32 p, u8 q, u16 s) { return vc_uf(UF_FN, p, u64(q) << 16 | s); }, a.o, std::move(b.o), std::as_const(c.o));
    vc_assert(f.has_value() == h, "zip_with of three is engaged iff all are");
    if (h) { vc_assert(*f == vc_uf(UF_FN, a.v, b.v << 16 | c.v), "zip_with of three passes the values in order"); }
}
VC_SPEC(C15_zip_one) {
    Arb<Abs<1>> a;
    vc_cover("reached");
    { auto r = opt::zip(a.o); vc_assert(r.has_value() == a.h, "zip of one"); if (a.h) vc_assert(holds(std::get<0>(*r), a.v), "zip of one carries the value"); }
    a.destroy();
}
VC_SPEC(C15_zip_reference) {
    u32 x = vc_nondet_u32(), y = vc_nondet_u32();
    const u32 x0 = x, y0 = y;
    opt::option<u32&> a;
    opt::option<u32> b;
    const bool ha = vc_nondet_bool(), hb = vc_nondet_bool();
    if (ha) { a = x; }
    if (hb) { b = y; }
    vc_cover("reached");
    auto r = opt::zip(a, b);
    vc_assert(r.has_value() == (ha && hb), "zip with a reference option");
    if (r.has_value()) { vc_assert(&std::get<0>(*r) == &x && std::get<1>(*r) == y, "zip keeps the referent's identity"); }
    vc_assert(x == x0 && y == y0, "referents are not touched");
}
#else
#define I1(NAME, ...) VC_SPEC(C15_flatten_##NAME) { flattens<__VA_ARGS__>(); }
FAM_CONST(I1) FAM_SCALAR(I1) FAM_ABS(I1) FAM_TRIV(I1) I1(mo, Abs<1, 0, true, false>) I1(mo_t1, Abs<1, 1, true, false>)
VC_SPEC(C15_tuple_int_abs) { tuple_of<std::tuple<u32, Abs<1>>, u32, Abs<1>>(); }
VC_SPEC(C15_tuple_ptr_bool) { tuple_of<std::tuple<u32*, bool>, u32*, bool>(); }
VC_SPEC(C15_tuple_same) { tuple_of<std::tuple<u32, u32>, u32, u32>(); }
VC_SPEC(C15_tuple_mo_abst) { tuple_of<std::tuple<Abs<1, 0, true, false>, Abs<2, 2>>, Abs<1, 0, true, false>, Abs<2, 2>>(); }
VC_SPEC(C15_pair_int_byte) { tuple_of<std::pair<u32, u8>, u32, u8>(); }
VC_SPEC(C15_pair_abst_ptr) { tuple_of<std::pair<Abs<1, 2>, u32*>, Abs<1, 2>, u32*>(); }
VC_SPEC(C15_pair_bool_float) { tuple_of<std::pair<bool, float>, bool, float>(); }
VC_SPEC(C15_array) {
    using Arr = std::array<u32, 3>;
    const bool h = vc_nondet_bool();
    Arr v;
    vc_havoc(&v, sizeof(v));
    opt::option<Arr> o;
    if (h) { o = v; }
    vc_cover("reached");
    const u32* const p = h ? o->data() : nullptr;
    { auto r = opt::get<0>(o); vc_assert(r.has_value() == h && r.ptr_or_null() == p, "get<0> of an array"); if (h) vc_assert(*r == v[0], "value"); }
    { auto r = opt::get<1>(o); vc_assert(r.has_value() == h && r.ptr_or_null() == (h ? p + 1 : nullptr), "get<1> of an array"); if (h) vc_assert(*r == v[1], "value"); }
    { auto r = opt::get<2>(o); vc_assert(r.has_value() == h && r.ptr_or_null() == (h ? p + 2 : nullptr), "get<2> of an array"); if (h) vc_assert(*r == v[2], "value"); }
    auto u = opt::unzip(o);
    vc_assert(u[0].has_value() == h && u[1].has_value() == h && u[2].has_value() == h, "unzip of an array");
    if (h) { vc_assert(*u[0] == v[0] && *u[1] == v[1] && *u[2] == v[2], "unzip of an array yields the elements in order"); }
}
VC_SPEC(C15_tuple_three) {
    const bool h = vc_nondet_bool();
    const u32 a = vc_nondet_u32(); const u8 b = vc_nondet_u8(); const u16 c = vc_nondet_u16();
    opt::option<std::tuple<u32, u8, u16>> o;
    if (h) { o.emplace(a, b, c); }
    vc_cover("reached");
    const auto* p = o.ptr_or_null();
    { auto r = opt::get<1>(o); vc_assert(r.has_value() == h && r.ptr_or_null() == (h ? &std::get<1>(*p) : nullptr), "get<1> of three"); }
    { auto r = opt::get<2>(o); vc_assert(r.has_value() == h && r.ptr_or_null() == (h ? &std::get<2>(*p) : nullptr), "get<2> of three"); }
    { auto r = opt::get<u8>(o); vc_assert(r.ptr_or_null() == (h ? &std::get<1>(*p) : nullptr), "get<u8> of three"); }
    { auto r = opt::get<u16>(std::move(o)); vc_assert(r.ptr_or_null() == (h ? &std::get<2>(*p) : nullptr), "get<u16> && of three"); }
    auto [x, y, z] = opt::unzip(o);
    vc_assert(is_state(x, h, a) && is_state(y, h, b) && is_state(z, h, c), "unzip of three parts");
}
VC_SPEC(C15_tuple_of_references) {                                  // a component that is itself a reference
    u32 x = vc_nondet_u32();
    const u32 y = vc_nondet_u32();
    const bool h = vc_nondet_bool();
    opt::option<std::tuple<u32&, u32>> o;
    if (h) { o.emplace(x, y); }
    vc_cover("reached");
    { auto r = opt::get<0>(o); vc_assert(r.has_value() == h && r.ptr_or_null() == (h ? &x : nullptr), "get<0> of a reference component"); }
    { auto r = opt::get<1>(o); vc_assert(r.has_value() == h && (!h || *r == y), "get<1>"); }
    auto [a, b] = opt::unzip(o);
    vc_assert(a.has_value() == h && a.ptr_or_null() == (h ? &x : nullptr) && is_state(b, h, y), "unzip keeps the referent's identity");
}
VC_SPEC(C15_flatten_references) {                                   // nested options of references
    u32 x = vc_nondet_u32();
    const u32 x0 = x;
    const bool l1 = vc_nondet_bool(), l2 = vc_nondet_bool();
    opt::option<opt::option<u32&>> o;
    if (l1) { o.emplace(); if (l2) { o->emplace(x); } }
    u32* const p = l1 && l2 ? &x : nullptr;
    vc_cover("reached");
    { auto r = opt::flatten(o); vc_assert(std::is_same_v<decltype(r), opt::option<u32&>> && r.has_value() == (p != nullptr) && r.ptr_or_null() == p, "flatten of an l-value keeps the referent's identity"); }
    { auto r = opt::flatten(std::as_const(o)); vc_assert(std::is_same_v<decltype(r), opt::option<u32&>> && r.ptr_or_null() == p, "flatten of a const l-value keeps the referent's identity"); }
    vc_assert(o.has_value() == l1 && (!l1 || o->ptr_or_null() == p), "flatten leaves an l-value unchanged");
    { auto r = opt::flatten(std::move(o)); vc_assert(std::is_same_v<decltype(r), opt::option<u32&>> && r.ptr_or_null() == p, "flatten of an r-value keeps the referent's identity"); }
    opt::option<opt::option<u32&&>> q;
    if (l1) { q.emplace(); if (l2) { q->emplace(std::move(x)); } }
    { auto r = opt::flatten(q); vc_assert(std::is_same_v<decltype(r), opt::option<u32&&>> && r.ptr_or_null() == p, "flatten of r-value references keeps the referent's identity"); }
    { auto r = opt::flatten(std::move(q)); vc_assert(std::is_same_v<decltype(r), opt::option<u32&&>> && r.ptr_or_null() == p, "flatten of r-value references keeps the referent's identity"); }
    vc_assert(x == x0, "the referent is not touched");
}
#endif
