// C06: size-optimised options cost no space, and no operation writes outside the option's own bytes.
// vc-part: -DPART=1
// vc-part: -DPART=2
// vc-part: -DPART=3
#include "legit.hpp"

enum class E8 : u8 { a, b, c };
enum class ES : u16 { x = 0, SENTINEL = 7 };
enum class EST : int { x = 0, SENTINEL_START = 100 };
enum class ESE : u32 { x = 0, SENTINEL_START = 10, SENTINEL_END = 20 };
inline bool legit_enum(E8, u64 x) { return x <= 3; }
struct Cls { int i; long l; char buf[64]; };
struct Poly { virtual int f() { return 1; } virtual ~Poly() = default; u32 x = 0; };
struct PolyD : Poly { u64 y = 0; int f() override { return 2; } };
struct Padded { u32 a; u8 PADDING{}; };
struct Agg { int a; bool b; double c; };
struct Wrapped { int a; int b; };
struct Empty {};
struct Bare { virtual int f() { return 1; } };                      // nothing but the table pointer
struct BareD : Bare { ~BareD() {} };
struct PolyTail : Poly { u8 c = 0; };                               // a member in the base's tail padding
struct PolyVirt : virtual Bare { u32 x = 0; };
struct Bare2 { virtual int g() { return 2; } u64 x = 0; };
struct PolyMulti : Poly, Bare2 { bool b = false; };
struct PolyBig : Bare { unsigned char c[200]; };
struct Data { u64 a; }; struct PolyData : Data, Bare {};            // the primary base is not the first one
struct Inc;
enum class E16 : u16 { a, b = 300 };
enum class E64 : u64 { a, b };
inline bool legit_enum(E16, u64 x) { return x <= 300; }
inline bool legit_enum(E64, u64 x) { return x <= 1; }
enum class ESTU : u8 { x, SENTINEL_START = 250 };
enum class ESTS : signed char { x, SENTINEL_START = 120 };
struct Padded16 { u32 a; u16 PADDING{}; };

template<class T> void size() {
    vc_cover("reached");
    vc_assert(sizeof(opt::option<T>) == sizeof(T) && alignof(opt::option<T>) == alignof(T), "a size-optimised option has the size of its element");
    vc_assert(sizeof(opt::option<opt::option<T>>) == sizeof(T), "a size-optimised option nested in an option has the size of its element");
    vc_assert(sizeof(opt::option<opt::option<opt::option<opt::option<T>>>>) == sizeof(T), "size-optimised options nested four deep have the size of the element");
}
#if PART == 1
#define I(N, ...) VC_SPEC(size_##N) { size<__VA_ARGS__>(); }
I(bool_, bool) I(refw, std::reference_wrapper<Cls>) I(intp, int*) I(cintp, const int*) I(fnp, int (*)(bool)) I(voidp, void*)
I(double_, double) I(float_, float) I(poly, Poly) I(polyd, PolyD) I(sv, std::string_view) I(wsv, std::wstring_view)
I(uptr, std::unique_ptr<int>) I(uarr, std::unique_ptr<int[]>) I(str, std::string) I(wstr, std::wstring)
I(vec, std::vector<int>) I(vecb, std::vector<bool>) I(memi, int Cls::*) I(memf, int (Cls::*)()) I(e8, E8)
I(est, EST) I(ese, ESE) I(cplxf, std::complex<float>) I(cplxd, std::complex<double>)
I(pair1, std::pair<int, bool>) I(pair2, std::pair<double, int>) I(tup, std::tuple<int, long, int*>) I(arr, std::array<bool, 3>)
I(padded, Padded) I(agg, Agg) I(arrp, std::array<std::pair<int, float>, 2>)
I(arr1, std::array<bool, 1>) I(arr1d, std::array<double, 1>) I(arr64, std::array<int*, 64>) I(tup1, std::tuple<bool>) I(tup_last, std::tuple<u64, int, char, int*>)
I(tup_e, std::tuple<Empty, bool>) I(pair_b, std::pair<bool, u64>) I(pair_n, std::pair<std::pair<u64, bool>, u32>) I(pair_r, std::pair<u64, std::reference_wrapper<int>>)
I(bare, Bare) I(bared, BareD) I(polytail, PolyTail) I(polyvirt, PolyVirt) I(polymulti, PolyMulti) I(polybig, PolyBig) I(polydata, PolyData)
I(crefw, std::reference_wrapper<const int>) I(frefw, std::reference_wrapper<void(int)>) I(pp, int**) I(incp, Inc*) I(nfnp, void (*)() noexcept)
I(meml, long Cls::*) I(mema, char (Cls::*)[64]) I(meminc, int Inc::*) I(memfc, void (Cls::*)(int) const noexcept) I(memfinc, void (Inc::*)())
I(u16sv, std::u16string_view) I(u16str, std::u16string) I(u32str, std::u32string) I(vecs, std::vector<std::string>) I(uptr_poly, std::unique_ptr<Poly>) I(uptr_const, std::unique_ptr<const int>)
I(e16, E16) I(e64, E64) I(opt_u64, opt::option<u64>) I(pair_opt, std::pair<u64, opt::option<u64>>) I(tup_opt, std::tuple<u64, opt::option<bool>>)
#undef I
// at least the documented number of levels (docs/builtin_traits.md): the size is kept for that many options around one another,
// because option<X> with n > 0 levels has the size of X (above) and offers n - 1 levels (C05)
template<class T> void offers(u64 n) {
    vc_cover("reached");
    vc_assert(opt::option_traits<T>::max_level >= n, "an element type offers the documented number of levels");
}
VC_SPEC(levels_documented) {
    offers<bool>(254); offers<std::reference_wrapper<Cls>>(256); offers<opt::option<int&>>(255); offers<int*>(512); offers<void (*)(int)>(512);
    offers<double>(256); offers<float>(256); offers<Poly>(255); offers<std::string_view>(255); offers<std::unique_ptr<int>>(255); offers<std::unique_ptr<int[]>>(255);
    offers<std::string>(255); offers<std::wstring>(255); offers<std::vector<int>>(255); offers<int Cls::*>(255); offers<int (Cls::*)()>(255);
    offers<ES>(1); offers<EST>(0x7FFFFFFFull - 100 + 1); offers<ESE>(20 - 10 + 1); offers<ESTU>(0xFF - 250 + 1); offers<ESTS>(127 - 120 + 1); offers<Padded>(255); offers<Padded16>(65535);
    offers<std::complex<double>>(256); offers<std::complex<float>>(256);
    offers<std::pair<bool, int*>>(512); offers<std::pair<int*, bool>>(512); offers<std::tuple<bool, double, int*>>(512); offers<std::tuple<int*, bool, u64>>(512); offers<std::array<int*, 3>>(512);
    offers<opt::option<bool>>(253); offers<opt::option<opt::option<bool>>>(252); offers<opt::option<u64>>(254);
}
template<class T> void size1() {
    vc_cover("reached");
    vc_assert(sizeof(opt::option<T>) == sizeof(T), "a size-optimised option has the size of its element");
}
VC_SPEC(size_es) { size1<ES>(); }
VC_SPEC(size_sentinel) { size1<opt::sentinel<int, -1>>(); vc_assert(sizeof(opt::option<opt::sentinel<int, -1>>) == sizeof(int), "no space"); }
VC_SPEC(size_member) { size1<opt::member<Agg, &Agg::b>>(); }
VC_SPEC(size_const) { size1<const bool>(); size1<int* const>(); size1<const double>(); size1<const std::string>(); size1<const Poly>(); size1<const std::pair<int, bool>>(); size1<const opt::option<u64>>(); size1<const std::array<bool, 1>>(); }
VC_SPEC(size_ref) {
    vc_cover("reached");
    vc_assert(sizeof(opt::option<int&>) == sizeof(void*) && sizeof(opt::option<const Cls&>) == sizeof(void*), "a reference option is one pointer");
    vc_assert(sizeof(opt::option<opt::option<int&>>) == sizeof(void*) && sizeof(opt::option<opt::option<opt::option<int&>>>) == sizeof(void*), "nested too");
}
VC_SPEC(size_nested_flag) {
    vc_cover("reached");
    using O1 = opt::option<u64>;
    vc_assert(sizeof(opt::option<O1>) == sizeof(O1) && sizeof(opt::option<opt::option<O1>>) == sizeof(O1), "nesting in an option with a flag costs nothing more");
}
// writing and reading a level
template<class T>
void levels() {
    using Tr = opt::option_traits<T>;
    struct G { u8 pre[16]; alignas(T) unsigned char b[sizeof(T)]; u8 post[16]; } g;
    vc_havoc(&g, sizeof g);
    vc_snap(g.pre, sizeof g.pre, 1);
    vc_snap(g.post, sizeof g.post, 2);
    const u64 l = vc_nondet_u64();
    vc_assume(l < Tr::max_level);
    vc_cover("reached");
    vc_assigns_begin();
    vc_assigns_allow(g.b, sizeof(T));
    Tr::set_level(reinterpret_cast<T*>(g.b), l);
    vc_assigns_end("writing a level writes only the element's bytes");
    vc_assert(vc_same(g.pre, sizeof g.pre, 1) && vc_same(g.post, sizeof g.post, 2), "writing a level changes no neighbouring byte");
    alignas(T) unsigned char alone[sizeof(T)];                      // and nothing outside is needed to read it back
    vc_make_indeterminate(alone, sizeof alone);
    Tr::set_level(reinterpret_cast<T*>(alone), l);
    u64 k = 0;
    vc_assigns_begin();
    vc_assigns_allow(&k, sizeof k);
    k = Tr::get_level(reinterpret_cast<T*>(alone));
    vc_assigns_end("reading a level writes nothing");
    vc_assert(k == l, "the level is contained in the element's bytes");
}
#define I(N, ...) VC_SPEC(levels_##N) { levels<__VA_ARGS__>(); }
I(bool_, bool) I(refw, std::reference_wrapper<Cls>) I(intp, int*) I(fnp, int (*)(bool)) I(double_, double) I(float_, float)
I(poly, Poly) I(polyd, PolyD) I(sv, std::string_view) I(uptr, std::unique_ptr<int>) I(uarr, std::unique_ptr<int[]>)
I(str, std::string) I(wstr, std::wstring) I(vec, std::vector<int>) I(vecb, std::vector<bool>) I(memi, int Cls::*)
I(memf, int (Cls::*)()) I(e8, E8) I(es, ES) I(est, EST) I(ese, ESE)
I(pair1, std::pair<int, bool>) I(pair2, std::pair<double, int>) I(tup, std::tuple<int, long, int*>) I(arr, std::array<bool, 3>)
I(padded, Padded) I(agg, Agg) I(arrp, std::array<std::pair<int, float>, 2>) I(cplxf, std::complex<float>) I(cplxd, std::complex<double>)
I(sent, opt::sentinel<int, -1, 5>) I(mem, opt::member<Agg, &Agg::b>) I(opt_bool, opt::option<bool>) I(opt_int, opt::option<int>)
I(opt_ref, opt::option<int&>) I(opt2, opt::option<opt::option<int*>>)
#undef I
#else

// an arbitrary option between guard bytes
template<class T>
struct G {
    using O = opt::option<T>;
    struct Mem { u8 pre[16]; alignas(O) unsigned char b[sizeof(O)]; u8 post[16]; } m;
    O& o;
    bool h;
    u64 v;
    G() : o(*reinterpret_cast<O*>(m.b)), h(false), v(0) {
        vc_havoc(&m, sizeof m);
        vc_spec(true);
        h = o.has_value();
        if (h) { M<T>::assume_valid(o.get_unchecked()); v = M<T>::val(o.get_unchecked()); }
        vc_spec(false);
        vc_snap(m.pre, sizeof m.pre, 1);
        vc_snap(m.post, sizeof m.post, 2);
    }
    G(const G&) = delete;
    void guards() { vc_assert(vc_same(m.pre, sizeof m.pre, 1) && vc_same(m.post, sizeof m.post, 2), "no neighbouring byte is changed"); }
};
inline u8 g_counters_lo;
// objects that element operations are allowed to write: the counters of the abstract types
inline void allow_ghost() {
    vc_assigns_allow(&g_ctor, sizeof g_ctor); vc_assigns_allow(&g_dtor, sizeof g_dtor);
    vc_assigns_allow(&g_copy, sizeof g_copy); vc_assigns_allow(&g_move, sizeof g_move);
    vc_assigns_allow(&g_casg, sizeof g_casg); vc_assigns_allow(&g_masg, sizeof g_masg);
}
// the operation runs in a frame of its own: the caller's frame is frame-checked too
#define RUN(t2, ...) [](auto& s, auto& t, u32 x) { (void)x; (void)t; __VA_ARGS__; }(s, t2, x);
#define FRAME_BEGIN vc_assigns_begin(); allow_ghost(); vc_assigns_allow(&s.o, sizeof s.o);
#define FRAME_END vc_assigns_end("only the option's own bytes are written");  s.guards(); vc_end();
#define OP(...) if (vc_nondet_bool()) { FRAME_BEGIN RUN(s, __VA_ARGS__) FRAME_END }
#define PURE(...) if (vc_nondet_bool()) { vc_assigns_begin(); RUN(s, __VA_ARGS__) vc_assigns_end("an observer writes nothing"); s.guards(); vc_end(); }
#define OP2(...) if (vc_nondet_bool()) { Arb<T> t; FRAME_BEGIN RUN(t, __VA_ARGS__) vc_assigns_end("only the destination's own bytes are written"); s.guards(); vc_end(); }
#define OP3(...) if (vc_nondet_bool()) { Arb<T> t; FRAME_BEGIN vc_assigns_allow(&t.o, sizeof t.o); RUN(t, __VA_ARGS__) vc_assigns_end("only the two options' own bytes are written"); s.guards(); vc_end(); }
#if PART == 2
template<class T>
void writers() {
    using O = opt::option<T>;
    const u32 x = vc_nondet_u32();
    G<T> s;
    vc_cover("reached");
    OP(s.o.reset())
    OP(s.o = opt::none)
    OP(s.o.emplace(M<T>::make(x)))
    OP(s.o.try_emplace(M<T>::make(x)))
    OP(s.o = M<T>::make(x))
    OP(O r = s.o.take(); (void)r)
    OP(O r = s.o.take_if([](auto&&) { return vc_nondet_bool(); }); (void)r)
    OP(s.o.~O())
    OP(O r(static_cast<O&&>(s.o)))
    OP3(s.o = static_cast<O&&>(t.o))
    OP3(s.o.swap(t.o))
    OP3(opt::swap(s.o, t.o))
    if constexpr (std::is_copy_constructible_v<T>) {
        OP2(s.o = t.o)
        OP(O r(s.o))
    }
    if (s.h == false) {                                             // construction into the storage
        OP(::new (static_cast<void*>(&s.o)) O)
        OP(::new (static_cast<void*>(&s.o)) O(opt::none))
        OP(::new (static_cast<void*>(&s.o)) O(M<T>::make(x)))
        OP(::new (static_cast<void*>(&s.o)) O(std::in_place, M<T>::make(x)))
        OP3(::new (static_cast<void*>(&s.o)) O(static_cast<O&&>(t.o)))
        if constexpr (std::is_copy_constructible_v<T>) { OP2(::new (static_cast<void*>(&s.o)) O(t.o)) }
    }
    PURE((void)s.o.has_value())
    PURE((void)static_cast<bool>(s.o))
    PURE((void)(s.o == opt::none))
    PURE((void)s.o.ptr_or_null())
    if (s.h) { PURE((void)s.o.get(); (void)*s.o; (void)s.o.get_unchecked()) }
    PURE((void)(s.o.begin() == s.o.end()))
}
#define I(N, ...) VC_SPEC(writers_##N) { writers<__VA_ARGS__>(); }
FAM_ALL(I) FAM_OPT(I)
#undef I
#else
// a class derived from option may keep members in the option's tail padding
template<class T>
void tail() {
    using O = opt::option<T>;
    struct D : O { using O::O; using O::operator=; u8 c0, c1, c2; };
    const u32 x = vc_nondet_u32();
    alignas(D) unsigned char buf[sizeof(D)], buf2[sizeof(O)];
    vc_havoc(buf, sizeof buf);
    D& d = *reinterpret_cast<D*>(buf);
    O& o = d;
    vc_spec(true);
    const bool h = o.has_value();
    if (h) { M<T>::assume_valid(o.get_unchecked()); }
    vc_spec(false);
    const u8 c0 = d.c0, c1 = d.c1, c2 = d.c2;
    vc_cover("reached");
#define T1(...) if (vc_nondet_bool()) { __VA_ARGS__; vc_assert(d.c0 == c0 && d.c1 == c1 && d.c2 == c2, "members of a derived class in the tail padding are unchanged"); vc_end(); }
    T1(o.reset())
    T1(o = opt::none)
    T1(o.emplace(M<T>::make(x)))
    T1(o = M<T>::make(x))
    T1(auto r = o.take(); (void)r)
    T1(O p; o = p)
    T1(O p(M<T>::make(x)); o = p)
    T1(O p(M<T>::make(x)); o = static_cast<O&&>(p))
    T1(O p(M<T>::make(x)); o.swap(p))
    T1(O p; o.swap(p))
    if (h) {
        d.~D();
        D* q = ::new (static_cast<void*>(buf)) D(M<T>::make(x));
        q->c0 = c0; q->c1 = c1; q->c2 = c2;
        O& oo = *q;
        oo = O{};
        vc_assert(q->c0 == c0 && q->c1 == c1 && q->c2 == c2, "members of a derived class in the tail padding are unchanged");
        oo = O{M<T>::make(x)};
        vc_assert(q->c0 == c0 && q->c1 == c1 && q->c2 == c2 && oo.has_value(), "members of a derived class in the tail padding are unchanged");
    }
#undef T1
    (void)buf2;
}
#define I(N, ...) VC_SPEC(tail_##N) { tail<__VA_ARGS__>(); }
FAM_SCALAR(I) FAM_ABS(I) FAM_TRIV(I) FAM_OPT(I)
#undef I
#endif
#endif
