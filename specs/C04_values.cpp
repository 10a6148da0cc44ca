// C04: reserved representations of the built-in element types never collide with legitimate values.
// Part A: every opt::option_traits<T> meets the contract that the specifications of option<T> rely on:
//   - level(x) >= max_level for every legitimate x, and asking does not modify x;
//   - after set_level(l), l < max_level, level is l.
// Part B: option<T> over every legitimate value of T.
// vc-part: -DPART=1
// vc-part: -DPART=2
#include "libstate.hpp"

#if PART == 1
#define I(N, ...) VC_SPEC(contract_##N) { contract<__VA_ARGS__>(); }
TYPES(I) HEAVY_TYPES(I)
#undef I
VC_SPEC(contract_poly) { trait_polymorphic<Poly>(); }
VC_SPEC(contract_polyd) { trait_polymorphic<PolyD>(); }
VC_SPEC(contract_polytriv) { trait_polymorphic<PolyTriv>(); }

#else
#define I(N, ...) VC_SPEC(values_##N) { values<__VA_ARGS__>(); }
TYPES(I) FLAG_TYPES(I)
#undef I
#define I(N, ...) VC_SPEC(unequal_##N) { unequal<__VA_ARGS__>(); }
I(bool_, bool) I(intp, int*) I(voidp, void*) I(fnp, void (*)(int)) I(double_, double) I(float_, float) I(memi, int Cls::*)
I(e8, E8) I(e32, E32) I(e64, E64) I(eu, EU) I(ei, EI) I(cplxd, std::complex<double>)
#undef I
VC_SPEC(unique_int) { unique<std::unique_ptr<int>>([](u32 x) { return std::unique_ptr<int>(new int(int(x))); }, [](const std::unique_ptr<int>& p) { return u32(*p); }); }
VC_SPEC(unique_arr) { unique<std::unique_ptr<int[]>>([](u32 x) { return std::unique_ptr<int[]>(new int[2]{int(x), 1}); }, [](const std::unique_ptr<int[]>& p) { return u32(p[0]); }); }
VC_SPEC(unique_poly) { unique<std::unique_ptr<Poly>>([](u32 x) { return std::unique_ptr<Poly>(new PolyD(V{x})); }, [](const std::unique_ptr<Poly>& p) { return p->x; }); }
template char* std::basic_string<char>::_M_create(std::size_t&, std::size_t);   // not left to libstdc++.so
template wchar_t* std::basic_string<wchar_t>::_M_create(std::size_t&, std::size_t);
#define I(N, S) VC_SPEC(string_local_##N) { string_local<S>(); } VC_SPEC(string_heap_##N) { string_heap<S>(); } VC_SPEC(string_any_length_##N) { string_any_length<S>(); } VC_SPEC(string_empty_##N) { string_empty<S>(); }
I(char, std::string) I(wchar, std::wstring) I(u16, std::u16string)
#undef I
VC_SPEC(vector_int) { vectors<std::vector<int>>([](u32 x) { return std::vector<int>{int(x), 2}; }); }
VC_SPEC(vector_ptr) { vectors<std::vector<int*>>([](u32 x) { return std::vector<int*>{reinterpret_cast<int*>(u64(x)), nullptr}; }); }
VC_SPEC(polymorphic_base) { polymorphic<Poly>([](const Poly& p) { return p.x; }, 1); }
VC_SPEC(polymorphic_derived) { polymorphic<PolyD>([](const PolyD& p) { return p.x == u32(~p.z) && p.y == 5 ? p.x : ~p.x; }, 3); }
VC_SPEC(polymorphic_trivial) { polymorphic<PolyTriv>([](const PolyTriv& p) { return p.x; }, 4); }
#endif
