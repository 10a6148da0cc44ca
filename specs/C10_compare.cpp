// C10: comparison is the total lift of T's comparison
#include "abs.hpp"

// what T's own operators answer on abstract values
template<class T, class = void> struct Own {
    static bool eq(const T& a, const T& b) { return a == b; }
    static bool ne(const T& a, const T& b) { return a != b; }
    static bool lt(const T& a, const T& b) { return a < b; }
    static bool le(const T& a, const T& b) { return a <= b; }
    static bool gt(const T& a, const T& b) { return a > b; }
    static bool ge(const T& a, const T& b) { return a >= b; }
};
template<class A, class B>
void option_option() {
    Arb<A> a;
    Arb<B> b;
    vc_cover("reached");
    const opt::option<A>& l = a.o;
    const opt::option<B>& r = b.o;
    const bool both = a.h && b.h;
    const A* const pa = l.ptr_or_null();
    const B* const pb = r.ptr_or_null();
    if (both) { vc_cover("both engaged"); }
    if (a.h && !b.h) { vc_cover("left engaged"); }
    // empty < engaged; two empties equal
    vc_assert((l == r) == (both ? (*pa == *pb) : (a.h == b.h)), "== is T's == or both empty");
    vc_assert((l != r) == (both ? (*pa != *pb) : (a.h != b.h)), "!= is T's != or exactly one empty");
    vc_assert((l < r) == (both ? (*pa < *pb) : (!a.h && b.h)), "< is T's < or empty before engaged");
    vc_assert((l <= r) == (both ? (*pa <= *pb) : !a.h), "<= is T's <= or left empty");
    vc_assert((l > r) == (both ? (*pa > *pb) : (a.h && !b.h)), "> is T's > or engaged after empty");
    vc_assert((l >= r) == (both ? (*pa >= *pb) : !b.h), ">= is T's >= or right empty");
    vc_assert(a.h == l.has_value() && b.h == r.has_value(), "comparison changes nothing");
    a.destroy();
    b.destroy();
}
template<class T>
void option_none() {
    Arb<T> a;
    vc_cover("reached");
    const opt::option<T>& o = a.o;
    const bool h = a.h;
    vc_assert((o == opt::none) == !h && (opt::none == o) == !h, "== none iff empty");
    vc_assert((o != opt::none) == h && (opt::none != o) == h, "!= none iff engaged");
    vc_assert(!(o < opt::none) && (opt::none < o) == h, "< none never; none < engaged only");
    vc_assert((o <= opt::none) == !h && (opt::none <= o), "<= none");
    vc_assert((o > opt::none) == h && !(opt::none > o), "> none");
    vc_assert((o >= opt::none) && (opt::none >= o) == !h, ">= none");
    vc_assert(is_state(a.o, a.h, a.v), "comparison changes nothing");
    a.destroy();
}
template<class A, class B>
void option_value(const B& x) {
    Arb<A> a;
    vc_cover("reached");
    const opt::option<A>& o = a.o;
    const bool h = a.h;
    const A* const p = o.ptr_or_null();
    if (h) { vc_cover("engaged"); } else { vc_cover("empty"); }
    vc_assert((o == x) == (h && *p == x), "option == value");
    vc_assert((o != x) == (!h || *p != x), "option != value");
    vc_assert((o < x) == (!h || *p < x), "option < value");
    vc_assert((o <= x) == (!h || *p <= x), "option <= value");
    vc_assert((o > x) == (h && *p > x), "option > value");
    vc_assert((o >= x) == (h && *p >= x), "option >= value");
    vc_assert((x == o) == (h && x == *p), "value == option");
    vc_assert((x != o) == (!h || x != *p), "value != option");
    vc_assert((x < o) == (h && x < *p), "value < option");
    vc_assert((x <= o) == (h && x <= *p), "value <= option");
    vc_assert((x > o) == (!h || x > *p), "value > option");
    vc_assert((x >= o) == (!h || x >= *p), "value >= option");
    a.destroy();
}
template<class T>
void option_value_same() {
    Arb<T> src;                                                     // an arbitrary legitimate value
    vc_assume(src.h);
    option_value<T, T>(src.o.get_unchecked());
}
// argument order and exactly-once use of T's operator: uninterpreted, so any swap or substitution is visible
template<class A, class B>
void uninterpreted() {
    Arb<A> a;
    Arb<B> b;
    vc_cover("reached");
    const bool both = a.h && b.h;
    const auto uf = [](u32 f, u64 x, u64 y) { return (vc_uf(f, x, y) & 1) != 0; };
    vc_assert((a.o == b.o) == (both ? uf(UF_EQ, a.v, b.v) : a.h == b.h), "== delegates to T's ==");
    vc_assert((a.o != b.o) == (both ? uf(UF_NE, a.v, b.v) : a.h != b.h), "!= delegates to T's !=");
    vc_assert((a.o < b.o) == (both ? uf(UF_LT, a.v, b.v) : !a.h && b.h), "< delegates to T's <");
    vc_assert((a.o <= b.o) == (both ? uf(UF_LE, a.v, b.v) : !a.h), "<= delegates to T's <=");
    vc_assert((a.o > b.o) == (both ? uf(UF_GT, a.v, b.v) : a.h && !b.h), "> delegates to T's >");
    vc_assert((a.o >= b.o) == (both ? uf(UF_GE, a.v, b.v) : !b.h), ">= delegates to T's >=");
    const u32 x = vc_nondet_u32();
    const B v{x};
    vc_assert((a.o == v) == (a.h && uf(UF_EQ, a.v, x)), "option == value delegates to T's ==");
    vc_assert((a.o != v) == (!a.h || uf(UF_NE, a.v, x)), "option != value delegates to T's !=");
    vc_assert((a.o < v) == (!a.h || uf(UF_LT, a.v, x)), "option < value delegates to T's <");
    vc_assert((a.o <= v) == (!a.h || uf(UF_LE, a.v, x)), "option <= value delegates to T's <=");
    vc_assert((a.o > v) == (a.h && uf(UF_GT, a.v, x)), "option > value delegates to T's >");
    vc_assert((a.o >= v) == (a.h && uf(UF_GE, a.v, x)), "option >= value delegates to T's >=");
    vc_assert((v == a.o) == (a.h && uf(UF_EQ, x, a.v)), "value == option delegates to T's ==");
    vc_assert((v != a.o) == (!a.h || uf(UF_NE, x, a.v)), "value != option delegates to T's !=");
    vc_assert((v < a.o) == (a.h && uf(UF_LT, x, a.v)), "value < option delegates to T's <");
    vc_assert((v <= a.o) == (a.h && uf(UF_LE, x, a.v)), "value <= option delegates to T's <=");
    vc_assert((v > a.o) == (!a.h || uf(UF_GT, x, a.v)), "value > option delegates to T's >");
    vc_assert((v >= a.o) == (!a.h || uf(UF_GE, x, a.v)), "value >= option delegates to T's >=");
}
// T's operators return something that converts to bool: any non-zero answer means true
template<class A, class B>
void integral_answers() {
    const bool ah = vc_nondet_bool(), bh = vc_nondet_bool();
    const A x{vc_nondet_u32()};
    const B y{vc_nondet_u32()};
    opt::option<A> a;
    opt::option<B> b;
    if (ah) { a = x; }
    if (bh) { b = y; }
    vc_cover("reached");
    const bool both = ah && bh;
    const auto uf = [](u32 f, u64 p, u64 q) { return u32(vc_uf(f, p, q)) != 0; };
    vc_assert(static_cast<bool>(a == b) == (both ? uf(UF_EQ, x.v, y.v) : ah == bh), "== has the truth of T's ==");
    vc_assert(static_cast<bool>(a != b) == (both ? uf(UF_NE, x.v, y.v) : ah != bh), "!= has the truth of T's !=");
    vc_assert(static_cast<bool>(a < b) == (both ? uf(UF_LT, x.v, y.v) : !ah && bh), "< has the truth of T's <");
    vc_assert(static_cast<bool>(a <= b) == (both ? uf(UF_LE, x.v, y.v) : !ah), "<= has the truth of T's <=");
    vc_assert(static_cast<bool>(a > b) == (both ? uf(UF_GT, x.v, y.v) : ah && !bh), "> has the truth of T's >");
    vc_assert(static_cast<bool>(a >= b) == (both ? uf(UF_GE, x.v, y.v) : !bh), ">= has the truth of T's >=");
    vc_assert(static_cast<bool>(a == y) == (ah && uf(UF_EQ, x.v, y.v)) && static_cast<bool>(a != y) == (!ah || uf(UF_NE, x.v, y.v)), "(in)equality with a value has the truth of T's");
    vc_assert(static_cast<bool>(a < y) == (!ah || uf(UF_LT, x.v, y.v)) && static_cast<bool>(a <= y) == (!ah || uf(UF_LE, x.v, y.v)), "option < value, option <= value have the truth of T's");
    vc_assert(static_cast<bool>(a > y) == (ah && uf(UF_GT, x.v, y.v)) && static_cast<bool>(a >= y) == (ah && uf(UF_GE, x.v, y.v)), "option > value, option >= value have the truth of T's");
    vc_assert(static_cast<bool>(y == a) == (ah && uf(UF_EQ, y.v, x.v)) && static_cast<bool>(y != a) == (!ah || uf(UF_NE, y.v, x.v)), "(in)equality of a value with an option has the truth of T's");
    vc_assert(static_cast<bool>(y < a) == (ah && uf(UF_LT, y.v, x.v)) && static_cast<bool>(y <= a) == (ah && uf(UF_LE, y.v, x.v)), "value < option, value <= option have the truth of T's");
    vc_assert(static_cast<bool>(y > a) == (!ah || uf(UF_GT, y.v, x.v)) && static_cast<bool>(y >= a) == (!ah || uf(UF_GE, y.v, x.v)), "value > option, value >= option have the truth of T's");
}
VC_SPEC(C10_integral_same) { integral_answers<CmpI, CmpI>(); }
VC_SPEC(C10_integral_mixed) { integral_answers<CmpI, CmpI2>(); }
VC_SPEC(C10_uf_same) { uninterpreted<Cmp, Cmp>(); }
VC_SPEC(C10_uf_mixed) { uninterpreted<Cmp, Cmp2>(); }
VC_SPEC(C10_uf_mixed2) { uninterpreted<Cmp2, Cmp>(); }
VC_SPEC(C10_int_int) { option_option<u32, u32>(); }
VC_SPEC(C10_int_byte) { option_option<u32, u8>(); }
VC_SPEC(C10_int_long) { option_option<int, long>(); }
VC_SPEC(C10_bool_bool) { option_option<bool, bool>(); }
VC_SPEC(C10_bool_int) { option_option<bool, int>(); }
VC_SPEC(C10_ptr_ptr) { option_option<u32*, u32*>(); }
VC_SPEC(C10_float_float) { option_option<float, float>(); }
VC_SPEC(C10_value_int) { option_value<u32, u32>(vc_nondet_u32()); }
VC_SPEC(C10_value_int_long) { option_value<int, long>(long(vc_nondet_u64())); }
VC_SPEC(C10_value_bool) { option_value<bool, bool>(vc_nondet_bool()); }
VC_SPEC(C10_value_bool_int) { option_value<bool, int>(int(vc_nondet_u32())); }
VC_SPEC(C10_value_float) { option_value_same<float>(); }
VC_SPEC(C10_value_ptr) { option_value_same<u32*>(); }
VC_SPEC(C10_value_null) {
    Arb<u32*> a;
    vc_cover("reached");
    vc_assert((a.o == nullptr) == (a.h && a.v == 0) && (nullptr == a.o) == (a.h && a.v == 0), "comparison with nullptr is comparison with the contained pointer");
    vc_assert((a.o != nullptr) == !(a.h && a.v == 0), "!= nullptr");
}
VC_SPEC(C10_value_nan) {                                            // NaN is unordered and unequal even to itself
    Arb<float> a, b;
    vc_assume(a.h && b.h && a.o.get_unchecked() != a.o.get_unchecked());
    vc_cover("reached");
    vc_assert(!(a.o == b.o) && a.o != b.o && !(a.o < b.o) && !(a.o <= b.o) && !(a.o > b.o) && !(a.o >= b.o), "NaN is unordered");
    vc_assert(!(b.o == a.o) && b.o != a.o && !(b.o < a.o) && !(b.o <= a.o) && !(b.o > a.o) && !(b.o >= a.o), "NaN is unordered on the right");
    vc_assert(!(a.o == a.o) && a.o != a.o, "an option holding NaN is not equal to itself");
}
VC_SPEC(C10_reference) {
    u32 x = vc_nondet_u32(), y = vc_nondet_u32();
    opt::option<u32&> a, b;
    const bool ha = vc_nondet_bool(), hb = vc_nondet_bool();
    if (ha) { a = x; }
    if (hb) { b = y; }
    vc_cover("reached");
    const bool both = ha && hb;
    vc_assert((a == b) == (both ? x == y : ha == hb) && (a != b) == !(both ? x == y : ha == hb), "reference options compare their referents");
    vc_assert((a < b) == (both ? x < y : !ha && hb) && (a >= b) == (both ? x >= y : !hb), "reference options order their referents");
    vc_assert((a > b) == (both ? x > y : ha && !hb) && (a <= b) == (both ? x <= y : !ha), "reference options order their referents");
    vc_assert((a == y) == (ha && x == y) && (a < y) == (!ha || x < y) && (y < a) == (ha && y < x), "reference option and value");
    vc_assert((a == opt::none) == !ha && (opt::none < a) == ha, "reference option and none");
}
VC_SPEC(C10_nested) {                                               // option<option<T>>: lift applied twice
    Arb<u32> i, j;
    const bool ha = vc_nondet_bool(), hb = vc_nondet_bool();
    opt::option<opt::option<u32>> a, b;
    if (ha) { a.emplace(i.o); }
    if (hb) { b.emplace(j.o); }
    vc_cover("reached");
    const bool both = ha && hb, vals = i.h && j.h;
    vc_assert((a == b) == (both ? (vals ? i.v == j.v : i.h == j.h) : ha == hb), "nested ==");
    vc_assert((a != b) == !(both ? (vals ? i.v == j.v : i.h == j.h) : ha == hb), "nested !=");
    vc_assert((a < b) == (both ? (vals ? i.v < j.v : !i.h && j.h) : !ha && hb), "nested <");
    vc_assert((a >= b) == !(both ? (vals ? i.v < j.v : !i.h && j.h) : !ha && hb), "nested >=");
    vc_assert((a > b) == (both ? (vals ? i.v > j.v : i.h && !j.h) : ha && !hb), "nested >");
    vc_assert((a == opt::none) == !ha && (opt::none < a) == ha, "nested and none");
}
#define I1(NAME, ...) VC_SPEC(C10_none_##NAME) { option_none<__VA_ARGS__>(); }
FAM_CONST(I1) FAM_ALL(I1) FAM_OPT(I1)
