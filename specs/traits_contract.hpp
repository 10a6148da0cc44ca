// The contract of opt::option_traits<T> for the element types with built-in reserved representations; the premise of the
// specifications of option<T> and of the induction over nesting.
//   - level(x) >= max_level for every legitimate x, and asking does not modify x;
//   - after set_level(l), l < max_level, level is l.
#pragma once
#include "legit.hpp"

enum class E8 : u8 { a, b, c };
enum class E8_7 : u8 { a, b = 2, g = 7 };
enum class E8_one : u8 { z };
enum class E8_full : u8 { a, z = 255 };
enum class E16 : u16 { a, b, c = 511 };
enum class E32 : u32 { f0 = 1, f1 = 2, f2 = 4, f3 = 8, f4 = 16 };
enum class E64 : u64 { a = 3, b = 5, huge = 0xffffffffffffffff };
enum EU : u32 { eu_a, eu_b, eu_big = 5000 };
enum class EI : int { a = -1, b = 1 };
enum class EB : bool { a };
inline bool legit_enum(E8, u64 x) { return x <= 2 || x == 3; }              // enumerators and their combinations
inline bool legit_enum(E8_7, u64 x) { return x <= 7; }
inline bool legit_enum(E8_one, u64 x) { return x == 0; }
inline bool legit_enum(E8_full, u64) { return true; }
inline bool legit_enum(E16, u64 x) { return x <= 511; }
inline bool legit_enum(E32, u64 x) { return x <= 31; }
inline bool legit_enum(E64, u64 x) { return x <= 7 || x == 0xffffffffffffffff; }
inline bool legit_enum(EU, u64 x) { return x <= 1 || x == 5000 || x == 5001; }
inline bool legit_enum(EI, u64) { return true; }
inline bool legit_enum(EB, u64 x) { return x <= 1; }

struct Cls { int i; long l; char buf[64]; };
struct Poly { virtual int f() { return 1; } virtual ~Poly() = default; u32 x; Poly(V v) : x(v.x) {} };
struct PolyB { virtual int g() { return 2; } u64 y = 5; };
struct PolyD : Poly, PolyB { u32 z; PolyD(V v) : Poly(v), z(~v.x) {} int f() override { return 3; } };
struct PolyTriv { u32 x; PolyTriv(V v) : x(v.x) {} virtual int f() { return 4; } };

#define TYPES(I)                                                                                                         \
    I(bool_, bool) I(intp, int*) I(ccharp, const char*) I(voidp, void*) I(pp, int**) I(fnp, void (*)(int))               \
    I(refw, std::reference_wrapper<int>) I(crefw, std::reference_wrapper<const Cls>)                                    \
    I(double_, double) I(float_, float) I(cplxf, std::complex<float>) I(cplxd, std::complex<double>)                     \
    I(memi, int Cls::*) I(mema, char (Cls::*)[64]) I(memf, int (Poly::*)()) I(memcf, void (Cls::*)(int) const)           \
    I(e8, E8) I(e8_7, E8_7) I(e8_one, E8_one) I(e16, E16) I(e32, E32) I(e64, E64) I(eu, EU)                              \
    I(sv, std::string_view) I(wsv, std::wstring_view) I(u16sv, std::u16string_view)
#define FLAG_TYPES(I) I(e8_full, E8_full) I(ei, EI) I(eb, EB)
#define HEAVY_TYPES(I)                                                                                                   \
    I(uptr, std::unique_ptr<int>) I(uarr, std::unique_ptr<int[]>) I(upoly, std::unique_ptr<Poly>)                        \
    I(vec, std::vector<int>) I(vecb, std::vector<bool>) I(vecs, std::vector<std::string>)                                \
    I(str, std::string) I(wstr, std::wstring) I(u16str, std::u16string)

template<class T>
void contract() {
    using Tr = opt::option_traits<T>;
    vc_cover("reached");
    {
        Raw<T> x;
        Legit<T>::make(x.b);
        vc_snap(x.b, sizeof(T), 1);
        vc_assert(Tr::get_level(x.p()) >= Tr::max_level, "no legitimate value is a reserved representation");
        vc_assert(vc_same(x.b, sizeof(T), 1), "asking for the level does not modify the value");
    }
    {
        Raw<T> x;
        vc_make_indeterminate(x.b, sizeof(T));
        const u64 l = vc_nondet_u64();
        vc_assume(l < Tr::max_level);
        vc_cover("levels exist");
        Tr::set_level(x.p(), l);
        vc_assert(Tr::get_level(x.p()) == l, "a reserved representation is read back as the level that was written");
    }
}
template<class T>
void trait_polymorphic() {
    using Tr = opt::option_traits<T>;
    const u32 v = vc_nondet_u32();
    vc_cover("reached");
    T x{V{v}};
    vc_snap(&x, sizeof x, 1);
    vc_assert(Tr::get_level(&x) >= Tr::max_level, "no live object is a reserved representation");
    vc_assert(vc_same(&x, sizeof x, 1), "asking for the level does not modify the object");
    Raw<T> r;
    vc_make_indeterminate(r.b, sizeof(T));
    const u64 l = vc_nondet_u64();
    vc_assume(l < Tr::max_level);
    Tr::set_level(r.p(), l);
    vc_assert(Tr::get_level(r.p()) == l, "a reserved representation is read back as the level that was written");
}
