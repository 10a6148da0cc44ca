// C21: special members and noexcept mirror the element type.
// PART 1: the special members of option<T> for every profile of T's own special members: each of the four is deleted,
//   trivial, noexcept or potentially throwing, and the destructor is trivial or not (512 profiles, all there are for the
//   traits the documentation names).
// PART 2: the declarations are true, for the same 512 profiles: copying, moving and assigning the option calls exactly the
//   special members of T that the same operation on T calls, a trivial one calls none, a throwing one lets the exception
//   through, and none ends in std::terminate.
// PART 3: a trivially copyable option can be copied bytewise; swap, the observers and reference options are noexcept as
//   documented; an option of a literal type without reserved representations works during constant evaluation.
// vc-part: -DPART=1
// vc-part: -DPART=2
// vc-part: -DPART=3
#include "abs.hpp"
#include <string>
#include <vector>

enum Kind { DELETED, TRIVIAL, NOTHROW, THROWING };
template<int K> struct MixCC;
template<> struct MixCC<DELETED> { MixCC() = default; MixCC(const MixCC&) = delete; MixCC(MixCC&&) = default; MixCC& operator=(const MixCC&) = default; MixCC& operator=(MixCC&&) = default; };
template<> struct MixCC<TRIVIAL> {};
template<> struct MixCC<NOTHROW> { MixCC() = default; MixCC(const MixCC&) noexcept { ++g_copy; } MixCC(MixCC&&) = default; MixCC& operator=(const MixCC&) = default; MixCC& operator=(MixCC&&) = default; };
template<> struct MixCC<THROWING> { MixCC() = default; MixCC(const MixCC&) noexcept(false) { ++g_copy; may_throw(); } MixCC(MixCC&&) = default; MixCC& operator=(const MixCC&) = default; MixCC& operator=(MixCC&&) = default; };
template<int K> struct MixMC;
template<> struct MixMC<DELETED> { MixMC() = default; MixMC(const MixMC&) = default; MixMC(MixMC&&) = delete; MixMC& operator=(const MixMC&) = default; MixMC& operator=(MixMC&&) = default; };
template<> struct MixMC<TRIVIAL> {};
template<> struct MixMC<NOTHROW> { MixMC() = default; MixMC(const MixMC&) = default; MixMC(MixMC&&) noexcept { ++g_move; } MixMC& operator=(const MixMC&) = default; MixMC& operator=(MixMC&&) = default; };
template<> struct MixMC<THROWING> { MixMC() = default; MixMC(const MixMC&) = default; MixMC(MixMC&&) noexcept(false) { ++g_move; may_throw(); } MixMC& operator=(const MixMC&) = default; MixMC& operator=(MixMC&&) = default; };
template<int K> struct MixCA;
template<> struct MixCA<DELETED> { MixCA() = default; MixCA(const MixCA&) = default; MixCA(MixCA&&) = default; MixCA& operator=(const MixCA&) = delete; MixCA& operator=(MixCA&&) = default; };
template<> struct MixCA<TRIVIAL> {};
template<> struct MixCA<NOTHROW> { MixCA() = default; MixCA(const MixCA&) = default; MixCA(MixCA&&) = default; MixCA& operator=(const MixCA&) noexcept { ++g_casg; return *this; } MixCA& operator=(MixCA&&) = default; };
template<> struct MixCA<THROWING> { MixCA() = default; MixCA(const MixCA&) = default; MixCA(MixCA&&) = default; MixCA& operator=(const MixCA&) noexcept(false) { ++g_casg; may_throw(); return *this; } MixCA& operator=(MixCA&&) = default; };
template<int K> struct MixMA;
template<> struct MixMA<DELETED> { MixMA() = default; MixMA(const MixMA&) = default; MixMA(MixMA&&) = default; MixMA& operator=(const MixMA&) = default; MixMA& operator=(MixMA&&) = delete; };
template<> struct MixMA<TRIVIAL> {};
template<> struct MixMA<NOTHROW> { MixMA() = default; MixMA(const MixMA&) = default; MixMA(MixMA&&) = default; MixMA& operator=(const MixMA&) = default; MixMA& operator=(MixMA&&) noexcept { ++g_masg; return *this; } };
template<> struct MixMA<THROWING> { MixMA() = default; MixMA(const MixMA&) = default; MixMA(MixMA&&) = default; MixMA& operator=(const MixMA&) = default; MixMA& operator=(MixMA&&) noexcept(false) { ++g_masg; may_throw(); return *this; } };
// a deleted copy is user-declared in T itself, so that it stays deleted for r-values only where T's move is deleted too
template<int CC, int MC, int CA, int MA, bool TD>
struct SM : MixCC<CC>, MixMC<MC>, MixCA<CA>, MixMA<MA> {
    u32 v;
    SM() = default;
    explicit SM(V x) : v(x.x) {}
    SM(const SM&) = default;
    SM(SM&&) = default;
    SM& operator=(const SM&) = default;
    SM& operator=(SM&&) = default;
};
template<int CC, int MC, int CA, int MA>
struct SM<CC, MC, CA, MA, false> : MixCC<CC>, MixMC<MC>, MixCA<CA>, MixMA<MA> {
    u32 v;
    SM() = default;
    explicit SM(V x) : v(x.x) {}
    SM(const SM&) = default;
    SM(SM&&) = default;
    SM& operator=(const SM&) = default;
    SM& operator=(SM&&) = default;
    ~SM() { ++g_dtor; }
};
#define EQ(A, B, L) vc_assert((A) == (B), L)
#ifdef __clang__
#define CONST(C, L) vc_assert(C, L)
#else
#define CONST(C, L) static_assert(C, L)                             // the second front end's answer
#endif
#define EQC(A, B, L) CONST((A) == (B), L)
template<class T>
void profile() {
    using O = opt::option<T>;
    using namespace std;
    constexpr bool cc = is_copy_constructible_v<T>, mc = is_move_constructible_v<T>, ca = is_copy_assignable_v<T>, ma = is_move_assignable_v<T>;
    EQC(is_copy_constructible_v<O>, cc, "copy constructible exactly when T is");
    EQC(is_move_constructible_v<O>, mc, "move constructible exactly when T is");
    EQC(is_copy_assignable_v<O>, cc && ca, "copy assignable exactly when T is copy constructible and assignable");
    EQC(is_move_assignable_v<O>, mc && ma, "move assignable exactly when T is move constructible and assignable");
    constexpr bool td = is_trivially_destructible_v<T>;
    EQC(is_trivially_destructible_v<O>, td, "trivially destructible exactly when T is");
    CONST((is_nothrow_destructible_v<O> && is_nothrow_default_constructible_v<O> && is_nothrow_constructible_v<O, opt::none_t>), "emptiness never throws");
    constexpr bool tcc = is_trivially_copy_constructible_v<T>, tmc = is_trivially_move_constructible_v<T>;
    EQC(is_trivially_copy_constructible_v<O>, tcc, "trivially copy constructible exactly when T is");
#ifndef __clang__                                                   // gcc regards the defaulted move constructor as non-trivial when a const T would be copied trivially but a T not moved trivially
    if constexpr (!is_const_v<T>)
#endif
    EQC(is_trivially_move_constructible_v<O>, tmc, "trivially move constructible exactly when T is");
    EQC(is_trivially_copy_assignable_v<O>, tcc && is_trivially_copy_assignable_v<T> && td, "trivially copy assignable exactly when T's copy operations and destructor are trivial");
    EQC(is_trivially_move_assignable_v<O>, tmc && is_trivially_move_assignable_v<T> && td, "trivially move assignable exactly when T's move operations and destructor are trivial");
    constexpr bool ncc = is_nothrow_copy_constructible_v<T>, nmc = is_nothrow_move_constructible_v<T>;
    EQC(is_nothrow_copy_constructible_v<O>, ncc, "nothrow copy constructible exactly when T is");
    EQC(is_nothrow_move_constructible_v<O>, nmc, "nothrow move constructible exactly when T is");
    EQC(is_nothrow_copy_assignable_v<O>, cc && ca && ncc && is_nothrow_copy_assignable_v<T>, "nothrow copy assignable exactly when T's copy operations are");
    EQC(is_nothrow_move_assignable_v<O>, mc && ma && nmc && is_nothrow_move_assignable_v<T>, "nothrow move assignable exactly when T's move operations are");
}
#if PART == 1
template<int CC, int MC, int... I>
void profiles(std::integer_sequence<int, I...>) { (profile<SM<CC, MC, I / 8, I / 2 % 4, I % 2 != 0>>(), ...); }
#define P(CC, MC) VC_SPEC(C21_profiles_##CC##_##MC) { vc_cover("reached"); profiles<CC, MC>(std::make_integer_sequence<int, 32>{}); }
P(DELETED, DELETED) P(DELETED, TRIVIAL) P(DELETED, NOTHROW) P(DELETED, THROWING)
P(TRIVIAL, DELETED) P(TRIVIAL, TRIVIAL) P(TRIVIAL, NOTHROW) P(TRIVIAL, THROWING)
P(NOTHROW, DELETED) P(NOTHROW, TRIVIAL) P(NOTHROW, NOTHROW) P(NOTHROW, THROWING)
P(THROWING, DELETED) P(THROWING, TRIVIAL) P(THROWING, NOTHROW) P(THROWING, THROWING)
// a const element: only the operations a const T has
template<int... I>
void const_profiles(std::integer_sequence<int, I...>) { (profile<const SM<I / 32, I / 8 % 4, I / 4 % 2 * 2, I / 2 % 2 * 3, I % 2 != 0>>(), ...); }
VC_SPEC(C21_profiles_const) { vc_cover("reached"); const_profiles(std::make_integer_sequence<int, 128>{}); }
#define I1(NAME, ...) VC_SPEC(C21_profile_##NAME) { vc_cover("reached"); profile<__VA_ARGS__>(); }
FAM_ALL(I1) FAM_OPT(I1)
#define I2(NAME, ...) I1(masks_##NAME, __VA_ARGS__)
FAM_TRIV_ALL(I2) FAM_TRIV_ALL_T(I2)
I1(const_int, const u32) I1(const_triv15, const Triv<15>) I1(string, std::string) I1(vector, std::vector<int>) I1(uptr, std::unique_ptr<int>)
I1(opt_string, opt::option<std::string>) I1(opt_uptr, opt::option<std::unique_ptr<int>>) I1(opt_mo, opt::option<Abs<1, 0, true, false>>) I1(opt_thr, opt::option<Abs<1, 0, false>>)
#endif
#if PART == 2
template<int CC, int MC, int CA, int MA, bool TD>
struct M<SM<CC, MC, CA, MA, TD>> {
    using T = SM<CC, MC, CA, MA, TD>;
    static constexpr bool tracked = false;
    static u64 val(const T& x) noexcept { return x.v; }
    static void assume_valid(const T&) noexcept {}
    static bool ok(const T&) noexcept { return true; }
};
struct Calls { u32 cc, mc, ca, ma; };
inline bool operator==(const Calls& a, const Calls& b) { return a.cc == b.cc && a.mc == b.mc && a.ca == b.ca && a.ma == b.ma; }
inline bool g_threw;
template<class F>
Calls count(F f) {
    g_copy = g_move = g_casg = g_masg = g_thrown = 0;
    g_throw = true;
    g_threw = false;
    try { f(); } catch (const Exc& e) { g_threw = true; vc_assert(g_thrown == 1 && e.id == g_exc_id, "the exception of T passes through unchanged"); }
    g_throw = false;
    EQ(g_threw, g_thrown != 0, "an exception is neither swallowed nor invented");
    return Calls{g_copy, g_move, g_casg, g_masg};
}
template<class T>
struct Raw {
    alignas(T) unsigned char b[sizeof(T)];
    void* at() noexcept { return static_cast<void*>(b); }
    T& get() noexcept { return *reinterpret_cast<T*>(b); }
};
// f(destination, source) on bare objects of T is the specification of what the option may call
template<class T, class Op>
void mirrors(Op op, const char* what) {
    using O = opt::option<T>;
    Arb<T> s;
    const bool h = s.h;
    const u64 v = s.v;
    if constexpr (Op::constructs) {
        Raw<O> r;
        const Calls got = count([&] { op(r, s.o); });
        if (!h) { vc_assert(got == Calls{} && !g_threw, what); vc_assert(!r.get().has_value(), "an empty option yields an empty option"); r.get().~O(); }
        else {
            const bool t = g_threw;
            if (!t) { vc_assert(is_state(r.get(), true, v), "the value arrives"); r.get().~O(); }
            T x{V{1}};
            Raw<T> y;
            const Calls want = count([&] { op(y, x); });
            vc_assert(got == want, what);
            vc_cover("constructed");
        }
    } else {
        Arb<T> d;
        const bool dh = d.h;
        const Calls got = count([&] { op(d.o, s.o); });
        const bool t = g_threw;
        T x{V{1}}, z{V{2}};
        Raw<T> y;
        if (!h) { vc_assert(got == Calls{} && !t, what); vc_assert(!d.o.has_value(), "assigning an empty option empties it"); }
        else {
            if (!t) { vc_assert(is_state(d.o, true, v), "the value arrives"); }
            if (dh) { const Calls want = count([&] { op(z, x); }); vc_assert(got == want, what); }
            else { const Calls want = count([&] { typename Op::Construct{}(y, x); }); vc_assert(got == want, what); }
            vc_cover("assigned");
        }
        d.destroy();
    }
    s.destroy();
}
struct CopyC { static constexpr bool constructs = true; template<class T> void operator()(Raw<T>& d, T& s) const { ::new (d.at()) T(static_cast<const T&>(s)); } };
struct MoveC { static constexpr bool constructs = true; template<class T> void operator()(Raw<T>& d, T& s) const { ::new (d.at()) T(static_cast<T&&>(s)); } };
struct CopyA { static constexpr bool constructs = false; using Construct = CopyC; template<class T> void operator()(T& d, T& s) const { d = static_cast<const T&>(s); } };
struct MoveA { static constexpr bool constructs = false; using Construct = MoveC; template<class T> void operator()(T& d, T& s) const { d = static_cast<T&&>(s); } };
template<class T>
void truthful() {
    using namespace std;
    constexpr bool cc = is_copy_constructible_v<T>, mc = is_move_constructible_v<T>;
    using O = opt::option<T>;
    CONST(is_copy_constructible_v<O> == cc && is_move_constructible_v<O> == mc, "an operation exists exactly when T has it");
    if constexpr (cc) { if (vc_nondet_bool()) { mirrors<T>(CopyC{}, "copy construction calls what copying T calls"); return; } }
    if constexpr (mc) { if (vc_nondet_bool()) { mirrors<T>(MoveC{}, "move construction calls what moving T calls"); return; } }
    if constexpr (cc && is_copy_assignable_v<T>) { if (vc_nondet_bool()) { mirrors<T>(CopyA{}, "copy assignment calls what copying T calls"); return; } }
    if constexpr (mc && is_move_assignable_v<T>) { if (vc_nondet_bool()) { mirrors<T>(MoveA{}, "move assignment calls what moving T calls"); return; } }
}
template<int CC, int MC, int CA, int... I>
void all(std::integer_sequence<int, I...>) {
    const u32 k = vc_nondet_u32();
    ((k == I ? truthful<SM<CC, MC, CA, I / 2, I % 2 != 0>>() : void()), ...);
}
// const elements are never moved from and never assigned to
#define PC(CC, MC) VC_SPEC(C21_truthful_const_##CC##_##MC) { vc_cover("reached"); if (vc_nondet_bool()) { truthful<const SM<CC, MC, TRIVIAL, TRIVIAL, false>>(); } else { truthful<const SM<CC, MC, THROWING, THROWING, true>>(); } }
#define P1(CC, MC, CA) VC_SPEC(C21_truthful_##CC##_##MC##_##CA) { vc_cover("reached"); all<CC, MC, CA>(std::make_integer_sequence<int, 8>{}); }
#define P(CC, MC) PC(CC, MC) P1(CC, MC, DELETED) P1(CC, MC, TRIVIAL) P1(CC, MC, NOTHROW) P1(CC, MC, THROWING)
P(DELETED, DELETED) P(DELETED, TRIVIAL) P(DELETED, NOTHROW) P(DELETED, THROWING)
P(TRIVIAL, DELETED) P(TRIVIAL, TRIVIAL) P(TRIVIAL, NOTHROW) P(TRIVIAL, THROWING)
P(NOTHROW, DELETED) P(NOTHROW, TRIVIAL) P(NOTHROW, NOTHROW) P(NOTHROW, THROWING)
P(THROWING, DELETED) P(THROWING, TRIVIAL) P(THROWING, NOTHROW) P(THROWING, THROWING)
// a copyable element whose moves are deleted in T itself: the defaulted moves of the option are ignored, so an r-value option is copied
struct DelMove {
    u32 v;
    explicit DelMove(V x) noexcept : v(x.x) {}
    DelMove(const DelMove& o) noexcept(false) : v(o.v) { ++g_copy; may_throw(); }
    DelMove(DelMove&&) = delete;
    DelMove& operator=(const DelMove& o) noexcept(false) { v = o.v; ++g_casg; may_throw(); return *this; }
    DelMove& operator=(DelMove&&) = delete;
};
VC_SPEC(C21_deleted_move) {
    using O = opt::option<DelMove>;
    CONST((std::is_copy_constructible_v<O> && std::is_copy_assignable_v<O> && !std::is_nothrow_copy_constructible_v<O> && !std::is_nothrow_copy_assignable_v<O>), "copyable exactly when T is");
    const bool h = vc_nondet_bool(), k = vc_nondet_bool();
    const V x{vc_nondet_u32()}, y{vc_nondet_u32()};
    vc_cover("reached");
    O s, d;
    if (h) { s.emplace(x); }
    if (k) { d.emplace(y); }
    ALT({ const Calls c = count([&] { O r(std::move(s)); vc_assert(r.has_value() == h && (!h || r->v == x.x), "an r-value is copied"); }); vc_assert((c == Calls{h ? 1u : 0u, 0, 0, 0}), "only the copy constructor is called"); })
    ALT({ const Calls c = count([&] { d = std::move(s); vc_assert(d.has_value() == h && (!h || d->v == x.x), "an r-value is copied"); }); vc_assert((c == Calls{h && !k ? 1u : 0u, 0, h && k ? 1u : 0u, 0}), "only the copy operations are called"); })
    vc_assert(s.has_value() == h && (!h || s->v == x.x), "the source is unchanged");
}
#endif
#if PART == 3
// a bytewise copy of a trivially copyable option is a copy
template<class T>
void bytewise() {
    using O = opt::option<T>;
    EQC(std::is_trivially_copyable_v<O>, std::is_trivially_copyable_v<T>, "trivially copyable exactly when T is");
    if constexpr (std::is_trivially_copyable_v<O>) {
        Arb<T> s;
        alignas(O) unsigned char b[sizeof(O)];
        __builtin_memcpy(b, s.buf, sizeof(O));
        O& c = *reinterpret_cast<O*>(b);
        vc_assert(is_state(c, s.h, s.v) && is_state(s.o, s.h, s.v), "a bytewise copy has the same state and value");
        Arb<T> t;
        __builtin_memcpy(t.buf, b, sizeof(O));
        vc_assert(is_state(t.o, s.h, s.v), "a bytewise copy over another option replaces its state and value");
        vc_cover("copied");
    }
    vc_cover("reached");
}
#define B1(NAME, ...) VC_SPEC(C21_bytewise_##NAME) { bytewise<__VA_ARGS__>(); }
FAM_ALL(B1) FAM_OPT(B1)
#define B2(NAME, ...) B1(masks_##NAME, __VA_ARGS__)
FAM_TRIV_ALL(B2) FAM_TRIV_ALL_T(B2)

template<class T>
void queries() {
    using O = opt::option<T>;
    O& o = *static_cast<O*>(nullptr);                               // unevaluated operands only
    const O& c = o;
    (void)o; (void)c;
#define NX(E) CONST(noexcept(E), "noexcept: " #E)
    NX(o.has_value()); NX(c.has_value()); NX(static_cast<bool>(c)); NX(o.reset()); NX(o = opt::none);
    NX(o.get()); NX(c.get()); NX(static_cast<O&&>(o).get()); NX(static_cast<const O&&>(o).get());
    NX(*o); NX(*c); NX(*static_cast<O&&>(o)); NX(*static_cast<const O&&>(o)); NX(o.operator->()); NX(c.operator->());
    NX(o.get_unchecked()); NX(c.get_unchecked()); NX(static_cast<O&&>(o).get_unchecked()); NX(static_cast<const O&&>(o).get_unchecked());
    NX(o.ptr_or_null()); NX(c.ptr_or_null());
    if constexpr (!std::is_reference_v<T>) {
        NX(o.begin()); NX(o.end()); NX(c.begin()); NX(c.end());
        if constexpr (!std::is_const_v<T>) {
        EQC(noexcept(o.swap(o)), std::is_nothrow_move_constructible_v<T> && std::is_nothrow_swappable_v<T>, "swap is noexcept exactly when T's move construction and swap are");
        EQC(noexcept(swap(o, o)), std::is_nothrow_move_constructible_v<T> && std::is_nothrow_swappable_v<T>, "swap is noexcept exactly when T's move construction and swap are");
        EQC(std::is_nothrow_swappable_v<O>, std::is_nothrow_move_constructible_v<T> && std::is_nothrow_swappable_v<T>, "nothrow swappable exactly when T is nothrow movable and swappable");
        }
    }
    NX(opt::from_nullable(static_cast<u32*>(nullptr)));
}
// swapping options of two element types
template<int Side, bool NM, bool NS>
struct Sw {
    u32 v;
    Sw(u32 x) noexcept : v(x) {}
    Sw(const Sw&) = default;
    Sw(Sw&& o) noexcept(NM) : v(o.v) {}
    template<bool NM2> Sw(Sw<1 - Side, NM2, NS>&& o) noexcept : v(o.v) {}
    Sw& operator=(Sw&&) = default;
    Sw& operator=(const Sw&) = default;
};
template<int S, bool A, bool B, bool NS>
void swap(Sw<S, A, NS>& a, Sw<1 - S, B, NS>& b) noexcept(NS) { const u32 t = a.v; a.v = b.v; b.v = t; }
template<bool A, bool B, bool NS>
void mixed_swap() {
    using T = Sw<0, A, NS>;
    using U = Sw<1, B, NS>;
    opt::option<T> x;
    opt::option<U> y;
    EQC(noexcept(x.swap(y)), A && B && NS, "swapping options of two types is noexcept exactly when moving both and swapping them is");
    EQC(noexcept(y.swap(x)), A && B && NS, "swapping options of two types is noexcept exactly when moving both and swapping them is");
    EQC(noexcept(opt::swap(x, y)), A && B && NS, "swapping options of two types is noexcept exactly when moving both and swapping them is");
    EQC((std::is_nothrow_swappable_with_v<opt::option<T>&, opt::option<U>&>), A && B && NS, "nothrow swappable with another option exactly when the element types are");
}
VC_SPEC(C21_mixed_swap) {
    mixed_swap<true, true, true>(); mixed_swap<true, false, true>(); mixed_swap<false, true, true>(); mixed_swap<false, false, true>();
    mixed_swap<true, true, false>(); mixed_swap<true, false, false>(); mixed_swap<false, true, false>(); mixed_swap<false, false, false>();
    vc_cover("reached");
}
template<class R>
void reference() {
    using O = opt::option<R>;
    using namespace std;
    CONST(is_trivially_copy_constructible_v<O> && is_trivially_move_constructible_v<O>, "reference options are trivially copyable and movable");
    CONST(is_trivially_copy_assignable_v<O> && is_trivially_move_assignable_v<O> && is_trivially_destructible_v<O> && is_trivially_copyable_v<O>, "reference options are trivially assignable and destructible");
    CONST(is_nothrow_copy_constructible_v<O> && is_nothrow_move_constructible_v<O> && is_nothrow_copy_assignable_v<O> && is_nothrow_move_assignable_v<O>, "reference options never throw");
    CONST((is_nothrow_default_constructible_v<O> && is_nothrow_constructible_v<O, opt::none_t> && is_nothrow_assignable_v<O&, opt::none_t>), "emptiness never throws");
    vc_assert(sizeof(O) == sizeof(void*), "a reference option is one pointer");
    queries<R>();
    remove_reference_t<R>* p = reinterpret_cast<remove_reference_t<R>*>(uintptr_t(vc_nondet_u32()));
    vc_assume(p != nullptr);
    alignas(O) unsigned char a[sizeof(O)], b[sizeof(O)];
    O* o = vc_nondet_bool() ? ::new (static_cast<void*>(a)) O(static_cast<R>(*p)) : ::new (static_cast<void*>(a)) O{};
    __builtin_memcpy(b, a, sizeof(O));
    EQ(reinterpret_cast<O*>(b)->ptr_or_null(), o->ptr_or_null(), "a bytewise copy designates the same object");
    vc_cover("reached");
}
VC_SPEC(C21_ref_u32) { reference<u32&>(); }
VC_SPEC(C21_ref_cu32) { reference<const u32&>(); }
VC_SPEC(C21_ref_thr) { reference<Abs<1, 0, false>&>(); }
VC_SPEC(C21_ref_moveonly) { reference<Abs<1, 2, true, false>&>(); }
#define Q1(NAME, ...) VC_SPEC(C21_queries_##NAME) { queries<__VA_ARGS__>(); vc_cover("reached"); }
FAM_ALL(Q1) FAM_OPT(Q1)
Q1(const_u32, const u32) Q1(const_thr, const Abs<1, 0, false>) Q1(thr0, Abs<1, 0, false>) Q1(thr2, Abs<1, 2, false>)

// constant evaluation: an option of a literal type that carries no reserved representations
template<class F, int = (F::run(), 0)> constexpr bool constant(F) { return true; }
constexpr bool constant(...) { return false; }
struct Lit { int v; int w; };                                       // no reserved representations
struct LitC { int v; int w; constexpr LitC(int a, int b) : v(a), w(b) {} constexpr bool operator==(const LitC& r) const { return v == r.v && w == r.w; } constexpr bool operator<(const LitC& r) const { return v < r.v; } };
struct LitN { int v; LitN() = default; constexpr LitN(int a) : v(a) {} constexpr LitN(const LitN& o) : v(o.v) {} constexpr LitN& operator=(const LitN& o) { v = o.v; return *this; } };   // not trivially copyable
struct K_none { static constexpr bool run() { opt::option<int> a; opt::option<int> b{opt::none}; return !a.has_value() && !b && a == b && a == opt::none && a.ptr_or_null() == nullptr && a.value_or(5) == 5 && a.begin() == a.end(); } };
struct K_value { static constexpr bool run() { opt::option<int> a{7}; return a.has_value() && bool(a) && *a == 7 && a.get() == 7 && a.value_or(1) == 7 && *a.ptr_or_null() == 7 && a == 7 && a != opt::none && a > 3 && a < 8 && a.value() == 7 && a.value_or_throw() == 7 && *a.begin() == 7; } };
struct K_copy { static constexpr bool run() { opt::option<int> a{7}; opt::option<int> b{a}; opt::option<int> c{static_cast<opt::option<int>&&>(b)}; const opt::option<int> e; opt::option<int> f{e}; return *b == 7 && *c == 7 && !f && a == c && a != f; } };
struct K_assign { static constexpr bool run() { opt::option<int> a{7}; opt::option<int> b; b = a; a = opt::none; const bool x = !a && *b == 7; a = b; b = opt::option<int>{}; return x && *a == 7 && !b; } };
struct K_reset { static constexpr bool run() { opt::option<int> a{7}; a.reset(); return !a; } };
struct K_aggr { static constexpr bool run() { opt::option<LitC> a{std::in_place, 3, 4}; opt::option<LitC> b; b = a; return a->v == 3 && b->w == 4 && a == b && !(a < b); } };
struct K_conv { static constexpr bool run() { opt::option<short> a{short(7)}; opt::option<int> b{a}; opt::option<long> c{opt::option<int>{}}; return *b == 7 && !c; } };
struct K_map { struct F { constexpr int operator()(int x) const { return x + 1; } }; struct G { constexpr opt::option<int> operator()(int x) const { return opt::option<int>{x * 2}; } };
    static constexpr bool run() { opt::option<int> a{7}, e; return *a.map(F{}) == 8 && !e.map(F{}) && *a.and_then(G{}) == 14 && a.map_or(0, F{}) == 8 && e.map_or(1, F{}) == 1 && !a.filter([](int x) { return x > 8; }) && *(a | e) == 7 && *(e | a) == 7 && (a ^ e).has_value(); } };
struct K_zip { static constexpr bool run() { opt::option<int> a{7}; opt::option<long> b{2}; return std::get<0>(*opt::zip(a, b)) == 7 && std::get<1>(*opt::zip(a, b)) == 2; } };
struct K_ref { static constexpr bool run() { int i = 3, j = 4; opt::option<int&> a{i}; opt::option<int&> b; b = a; a = j; *b = 9; return i == 9 && &*a == &j; } };
struct K_lit { static constexpr bool run() { constexpr Lit l{1, 2}; opt::option<Lit> a{l}; return a->v == 1 && a->w == 2; } };
struct K_nontriv { static constexpr bool run() { opt::option<LitN> a{LitN{3}}; opt::option<LitN> e; return a->v == 3 && a.has_value() && !e; } };
template<class F>
void constant_evaluation() {
    constexpr bool usable = constant(F{});
    CONST(usable, "usable in a constant expression");
    if constexpr (usable) { constexpr bool r = F::run(); CONST(r, "constant evaluation gives the documented result"); }
    vc_assert(F::run(), "evaluation at run time gives the documented result");
    vc_cover("reached");
}
#define K(NAME) VC_SPEC(C21_constexpr_##NAME) { constant_evaluation<K_##NAME>(); }
K(none) K(value) K(copy) K(assign) K(reset) K(aggr) K(map) K(zip) K(ref) K(lit) K(nontriv)
#if __cplusplus >= 202002L                                         // C++17 cannot activate a union member in place during constant evaluation
K(conv)
#endif
#endif
