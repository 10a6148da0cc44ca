// Contracts of user-supplied element types and functions, and the representation invariant of opt::option<T>.
#pragma once
#include "vc.hpp"
#include <initializer_list>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
#include <opt/option.hpp>

using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using i64 = std::int64_t;
using u64 = std::uint64_t;

enum : u32 { ALIVE = 1 };                                          // ghost key: an object of class type lives here
enum How : u8 { BUILT = 0, COPIED = 1, MOVED = 2, CASSIGNED = 3, MASSIGNED = 4, VASSIGNED = 5, BUILT2 = 6, BUILTL = 7 };
enum : u32 { UF_MOVED = 1, UF_CTOR2, UF_EQ, UF_NE, UF_LT, UF_LE, UF_GT, UF_GE, UF_HASH, UF_FN, UF_FN2, UF_PRED, UF_FB, UF_CONV, UF_LIST, UF_G, UF_CMP3 };

struct Exc { u32 id; };                                            // what throwing user operations throw
inline bool g_throw = false;                                       // user operations may throw while set
inline u32 g_thrown = 0;                                           // number of exceptions thrown by user operations
inline u32 g_ctor = 0, g_dtor = 0, g_copy = 0, g_move = 0, g_casg = 0, g_masg = 0;
inline u32 g_exc_id = 0;

inline void may_throw(void* obj = nullptr, std::size_t n = 0) {
    if (g_throw && vc_nondet_bool()) {
        if (obj != nullptr) { vc_havoc(obj, n); }                  // a failed constructor may have written anything
        g_exc_id = vc_nondet_u32();
        ++g_thrown;
        throw Exc{g_exc_id};
    }
}

struct V { u32 x; };                                               // a plain value convertible to the abstract types
struct W { u32 x; };                                               // explicitly convertible only

// --- abstract element type with a non-trivial destructor -----------------------------------------------------------
// MaxLevel > 0: the type offers reserved representations through opt::option_traits (member `lvl`, 0xFF.. = a value).
template<int Tag, u32 MaxLevel = 0, bool NX = true, bool Copyable = true>
struct Abs {
    u32 v;
    u8 how;
    u8 lvl;

    static bool alive(const Abs* p) noexcept { return vc_ghost_get(p, ALIVE) == u64(Tag); }
    static void need(const Abs& o, const char* what) noexcept { vc_assert(alive(&o), what); }
    void birth() noexcept {
        vc_assert(vc_ghost_get(this, ALIVE) == 0, "object constructed over a live object");
        vc_ghost_set(this, ALIVE, Tag);
        ++g_ctor;
        lvl = u8(MaxLevel);
    }
    void set(u32 x, How h) noexcept { v = x; how = h; lvl = u8(MaxLevel); }
    void leave() noexcept { v = u32(vc_uf(UF_MOVED, v, 0)); }       // moved-from: alive, unspecified but deterministic value

    Abs(V x) noexcept(NX) { pre(); birth(); set(x.x, BUILT); }
    explicit Abs(W x) noexcept(NX) { pre(); birth(); set(u32(vc_uf(UF_CONV, x.x, 0)), BUILT); }
    Abs(V x, V y) noexcept(NX) { pre(); birth(); set(u32(vc_uf(UF_CTOR2, x.x, y.x)), BUILT2); }
    Abs(std::initializer_list<V> l, V y) noexcept(NX) { pre(); birth(); set(u32(vc_uf(UF_LIST, l.begin()[0].x + u32(l.size()), y.x)), BUILTL); }
    Abs(const Abs& o) noexcept(NX) { need(o, "copy-construction from an object that is not alive"); pre(); birth(); set(o.v, COPIED); ++g_copy; }
    Abs(Abs&& o) noexcept(NX) { need(o, "move-construction from an object that is not alive"); pre(); birth(); set(o.v, MOVED); o.leave(); ++g_move; }
    Abs& operator=(const Abs& o) noexcept(NX) {
        need(*this, "copy-assignment to an object that is not alive");
        need(o, "copy-assignment from an object that is not alive");
        post();
        set(o.v, CASSIGNED);
        ++g_casg;
        return *this;
    }
    Abs& operator=(Abs&& o) noexcept(NX) {
        need(*this, "move-assignment to an object that is not alive");
        need(o, "move-assignment from an object that is not alive");
        post();
        if (this != &o) { set(o.v, MASSIGNED); o.leave(); }
        ++g_masg;
        return *this;
    }
    Abs& operator=(V x) noexcept(NX) {
        need(*this, "assignment to an object that is not alive");
        post();
        set(x.x, VASSIGNED);
        return *this;
    }
    ~Abs() {
        need(*this, "destructor of an object that is not alive");
        vc_ghost_set(this, ALIVE, 0);
        ++g_dtor;
        vc_make_indeterminate(this, sizeof(*this));
    }
private:
    void pre() noexcept(NX) { if constexpr (!NX) { may_throw(this, sizeof(*this)); } }
    void post() noexcept(NX) { if constexpr (!NX) { may_throw(); } }
};
template<int Tag, u32 ML, bool NX>
struct Abs<Tag, ML, NX, false> {                                    // move-only
    u32 v;
    u8 how;
    u8 lvl;
    static bool alive(const Abs* p) noexcept { return vc_ghost_get(p, ALIVE) == u64(Tag); }
    static void need(const Abs& o, const char* what) noexcept { vc_assert(alive(&o), what); }
    void birth() noexcept {
        vc_assert(vc_ghost_get(this, ALIVE) == 0, "object constructed over a live object");
        vc_ghost_set(this, ALIVE, Tag);
        ++g_ctor;
    }
    void set(u32 x, How h) noexcept { v = x; how = h; lvl = u8(ML); }
    void leave() noexcept { v = u32(vc_uf(UF_MOVED, v, 0)); }
    Abs(V x) noexcept(NX) { pre(); birth(); set(x.x, BUILT); }
    Abs(V x, V y) noexcept(NX) { pre(); birth(); set(u32(vc_uf(UF_CTOR2, x.x, y.x)), BUILT2); }
    Abs(const Abs&) = delete;
    Abs& operator=(const Abs&) = delete;
    Abs(Abs&& o) noexcept(NX) { need(o, "move-construction from an object that is not alive"); pre(); birth(); set(o.v, MOVED); o.leave(); ++g_move; }
    Abs& operator=(Abs&& o) noexcept(NX) {
        need(*this, "move-assignment to an object that is not alive");
        need(o, "move-assignment from an object that is not alive");
        post();
        if (this != &o) { set(o.v, MASSIGNED); o.leave(); }
        ++g_masg;
        return *this;
    }
    Abs& operator=(V x) noexcept(NX) { need(*this, "assignment to an object that is not alive"); post(); set(x.x, VASSIGNED); return *this; }
    ~Abs() { need(*this, "destructor of an object that is not alive"); vc_ghost_set(this, ALIVE, 0); ++g_dtor; vc_make_indeterminate(this, sizeof(*this)); }
private:
    void pre() noexcept(NX) { if constexpr (!NX) { may_throw(this, sizeof(*this)); } }
    void post() noexcept(NX) { if constexpr (!NX) { may_throw(); } }
};

// --- tracked constructors and destructor, trivial assignment -----------------------------------------------------------
template<int Tag, u32 MaxLevel = 0>
struct AbsTA {
    u32 v;
    u8 how;
    u8 lvl;
    static bool alive(const AbsTA* p) noexcept { return vc_ghost_get(p, ALIVE) == u64(Tag); }
    static void need(const AbsTA& o, const char* what) noexcept { vc_assert(alive(&o), what); }
    void birth() noexcept { vc_assert(vc_ghost_get(this, ALIVE) == 0, "object constructed over a live object"); vc_ghost_set(this, ALIVE, Tag); ++g_ctor; }
    void set(u32 x, How h) noexcept { v = x; how = h; lvl = u8(MaxLevel); }
    void leave() noexcept { v = u32(vc_uf(UF_MOVED, v, 0)); }
    AbsTA(V x) noexcept { birth(); set(x.x, BUILT); }
    explicit AbsTA(W x) noexcept { birth(); set(u32(vc_uf(UF_CONV, x.x, 0)), BUILT); }
    AbsTA(V x, V y) noexcept { birth(); set(u32(vc_uf(UF_CTOR2, x.x, y.x)), BUILT2); }
    AbsTA(std::initializer_list<V> l, V y) noexcept { birth(); set(u32(vc_uf(UF_LIST, l.begin()[0].x + u32(l.size()), y.x)), BUILTL); }
    AbsTA(const AbsTA& o) noexcept { need(o, "copy-construction from an object that is not alive"); birth(); set(o.v, COPIED); ++g_copy; }
    AbsTA(AbsTA&& o) noexcept { need(o, "move-construction from an object that is not alive"); birth(); set(o.v, MOVED); o.leave(); ++g_move; }
    AbsTA& operator=(const AbsTA&) = default;
    AbsTA& operator=(AbsTA&&) = default;
    AbsTA& operator=(V x) noexcept { need(*this, "assignment to an object that is not alive"); set(x.x, VASSIGNED); return *this; }
    ~AbsTA() { need(*this, "destructor of an object that is not alive"); vc_ghost_set(this, ALIVE, 0); ++g_dtor; vc_make_indeterminate(this, sizeof(*this)); }
};

// --- abstract trivially destructible types, one per combination of user-provided copy/move operations ----------------
// marker `how` records which operation produced the value; a trivial operation copies the bytes.
template<int Mask, u32 MaxLevel = 0>   // bit0 copy ctor, bit1 copy assign, bit2 move ctor, bit3 move assign are user-provided
struct Triv;
#define VC_TRIV_BODY(MASK)                                                                                              \
    template<u32 ML>                                                                                                    \
    struct Triv<MASK, ML> {                                                                                             \
        u32 v;                                                                                                          \
        u8 how;                                                                                                         \
        u8 lvl;                                                                                                         \
        void set(u32 x, How h) noexcept { v = x; how = h; lvl = u8(ML); }                                               \
        void leave() noexcept { v = u32(vc_uf(UF_MOVED, v, 0)); }                                                       \
        Triv(V x) noexcept { set(x.x, BUILT); }                                                                         \
        explicit Triv(W x) noexcept { set(u32(vc_uf(UF_CONV, x.x, 0)), BUILT); }                                        \
        Triv(V x, V y) noexcept { set(u32(vc_uf(UF_CTOR2, x.x, y.x)), BUILT2); }                                        \
        Triv(std::initializer_list<V> l, V y) noexcept { set(u32(vc_uf(UF_LIST, l.begin()[0].x + u32(l.size()), y.x)), BUILTL); } \
        Triv& operator=(V x) noexcept { set(x.x, VASSIGNED); return *this; }
#define VC_CC0(M) Triv(const Triv&) = default;
#define VC_CC1(M) Triv(const Triv& o) noexcept { set(o.v, COPIED); ++g_copy; }
#define VC_CA0(M) Triv& operator=(const Triv&) = default;
#define VC_CA1(M) Triv& operator=(const Triv& o) noexcept { set(o.v, CASSIGNED); ++g_casg; return *this; }
#define VC_MC0(M) Triv(Triv&&) = default;
#define VC_MC1(M) Triv(Triv&& o) noexcept { set(o.v, MOVED); o.leave(); ++g_move; }
#define VC_MA0(M) Triv& operator=(Triv&&) = default;
#define VC_MA1(M) Triv& operator=(Triv&& o) noexcept { if (this != &o) { set(o.v, MASSIGNED); o.leave(); } ++g_masg; return *this; }
#define VC_TRIV(M, A, B, C, D) VC_TRIV_BODY(M) VC_CC##A(M) VC_CA##B(M) VC_MC##C(M) VC_MA##D(M) };
VC_TRIV(0, 0, 0, 0, 0) VC_TRIV(1, 1, 0, 0, 0) VC_TRIV(2, 0, 1, 0, 0) VC_TRIV(3, 1, 1, 0, 0)
VC_TRIV(4, 0, 0, 1, 0) VC_TRIV(5, 1, 0, 1, 0) VC_TRIV(6, 0, 1, 1, 0) VC_TRIV(7, 1, 1, 1, 0)
VC_TRIV(8, 0, 0, 0, 1) VC_TRIV(9, 1, 0, 0, 1) VC_TRIV(10, 0, 1, 0, 1) VC_TRIV(11, 1, 1, 0, 1)
VC_TRIV(12, 0, 0, 1, 1) VC_TRIV(13, 1, 0, 1, 1) VC_TRIV(14, 0, 1, 1, 1) VC_TRIV(15, 1, 1, 1, 1)

// --- opt::option_traits of the abstract types (the documented contract of user traits) --------------------------------
#define VC_TRAITS(TYPE, ML)                                                                                             \
    static constexpr std::uintmax_t max_level = ML;                                                                     \
    static std::uintmax_t get_level(const TYPE* p) noexcept { return p->lvl < ML ? p->lvl : std::uintmax_t(-1); }       \
    static void set_level(TYPE* p, const std::uintmax_t l) noexcept {                                                   \
        vc_assert(l < ML, "set_level called with a level out of range");                                                \
        vc_assert(vc_ghost_get(p, ALIVE) == 0, "set_level called on a live object");                                    \
        vc_make_indeterminate(p, sizeof(*p));                                                                           \
        p->lvl = u8(l);                                                                                                 \
    }
#define VC_DEF_ABS_TRAITS(ML)                                                                                           \
    template<int Tag, bool NX, bool C>                                                                                  \
    struct opt::option_traits<Abs<Tag, ML, NX, C>> { VC_TRAITS(Abs<Tag VC_COMMA ML VC_COMMA NX VC_COMMA C>, ML) };      \
    template<int Tag>                                                                                                   \
    struct opt::option_traits<AbsTA<Tag, ML>> { VC_TRAITS(AbsTA<Tag VC_COMMA ML>, ML) };                                \
    template<int Mask>                                                                                                  \
    struct opt::option_traits<Triv<Mask, ML>> { VC_TRAITS(Triv<Mask VC_COMMA ML>, ML) };
#define VC_COMMA ,
VC_DEF_ABS_TRAITS(1)
VC_DEF_ABS_TRAITS(2)
VC_DEF_ABS_TRAITS(3)

// --- hostile but legal element types: operator& is overloaded, and T{x} is not T(x) -------------------------------------
struct Absorb { template<class T> Absorb(const T&) noexcept {} };
// (Clang initialises T{x} from an x of type T by copying or moving it, gcc from a list of one x: the second front end is asked only
// whether a list was chosen at all)
#ifdef __clang__
#define VC_FROM_LIST noexcept : B(V{u32(vc_uf(UF_LIST, l.size(), 0))}) { this->how = BUILTL; }
#else
#define VC_FROM_LIST = delete;
#endif
#define VC_HOSTILE(NAME, BASE)                                                                                          \
    template<u32 ML>                                                                                                    \
    struct NAME : BASE {                                                                                                \
        using B = BASE;                                                                                                 \
        using B::B;                                                                                                     \
        using B::operator=;                                                                                             \
        NAME(const NAME&) = default;                                                                                    \
        NAME(NAME&&) = default;                                                                                         \
        NAME& operator=(const NAME&) = default;                                                                         \
        NAME& operator=(NAME&&) = default;                                                                              \
        NAME(std::initializer_list<Absorb> l) VC_FROM_LIST                                                              \
        NAME* operator&() noexcept { return nullptr; }                                                                  \
        const NAME* operator&() const noexcept { return nullptr; }                                                      \
    };
VC_HOSTILE(Hos, Abs<1 VC_COMMA ML>)
VC_HOSTILE(HosV, Triv<0 VC_COMMA ML>)
template<> struct opt::option_traits<Hos<2>> { VC_TRAITS(Hos<2>, 2) };
template<> struct opt::option_traits<HosV<2>> { VC_TRAITS(HosV<2>, 2) };

// --- comparisons: uninterpreted, hence arbitrary (not even an order) ---------------------------------------------------
#define VC_CMP(OP, UFN)                                                                                                 \
    template<class A, class B, class = decltype(A::vc_cmp), class = decltype(B::vc_cmp)>                                \
    bool operator OP(const A& a, const B& b) { return (vc_uf(UFN, a.v, b.v) & 1) != 0; }
struct Cmp { u32 v; static constexpr bool vc_cmp = true; };
struct Cmp2 { u32 v; static constexpr bool vc_cmp = true; };
// comparison operators and predicates need not return bool: only convertible to it (implicitly for CmpI, explicitly for Truth)
struct CmpI { u32 v; };
struct CmpI2 { u32 v; };
#define VC_CMPI(OP, UFN)                                                                                                \
    template<class A, class B, std::enable_if_t<(std::is_same_v<A, CmpI> || std::is_same_v<A, CmpI2>) && (std::is_same_v<B, CmpI> || std::is_same_v<B, CmpI2>), int> = 0> \
    u32 operator OP(const A& a, const B& b) { return u32(vc_uf(UFN, a.v, b.v)); }
VC_CMPI(==, UF_EQ)
VC_CMPI(!=, UF_NE)
VC_CMPI(<, UF_LT)
VC_CMPI(<=, UF_LE)
VC_CMPI(>, UF_GT)
VC_CMPI(>=, UF_GE)
struct Truth { u32 b; explicit operator bool() const noexcept { return b != 0; } };
VC_CMP(==, UF_EQ)
VC_CMP(!=, UF_NE)
VC_CMP(<, UF_LT)
VC_CMP(<=, UF_LE)
VC_CMP(>, UF_GT)
VC_CMP(>=, UF_GE)

// --- M<T>: abstract view of an element ---------------------------------------------------------------------------------
template<class T, class = void>
struct M;
template<class T>
struct M<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<std::remove_cv_t<T>, bool>>> {
    static constexpr bool tracked = false;
    static T make(u32 x) { return T(x); }
    static u64 val(const T& x) noexcept { return u64(x); }
    static u64 lift(u32 x) noexcept { return u64(T(x)); }
    static void assume_valid(const T&) noexcept {}
    static bool ok(const T&) noexcept { return true; }
    static u64 after_move(u64 x) noexcept { return x; }
    static constexpr u32 n = 0;
};
template<>
struct M<bool> {
    static constexpr bool tracked = false;
    static bool make(u32 x) { return (x & 1) != 0; }
    static u64 val(const bool& x) noexcept { return x; }
    static u64 lift(u32 x) noexcept { return x & 1; }
    static void assume_valid(const bool& b) noexcept { vc_assume(*reinterpret_cast<const u8*>(&b) < 2); }
    static bool ok(const bool& b) noexcept { return *reinterpret_cast<const u8*>(&b) < 2; }
    static u64 after_move(u64 x) noexcept { return x; }
};
template<>
struct M<float> {                                                   // any float except signaling NaNs (documented as reserved)
    static constexpr bool tracked = false;
    static float make(u32 x) { float f; u32 b = x & 0x7fffffffu; __builtin_memcpy(&f, &b, 4); return f; }
    static u64 val(const float& x) noexcept { u32 b; __builtin_memcpy(&b, &x, 4); return b; }
    static u64 lift(u32 x) noexcept { return x & 0x7fffffffu; }
    static bool snan(const float& x) noexcept { const u32 b = u32(val(x)); return (b & 0x7fc00000u) == 0x7f800000u && (b & 0x3fffffu) != 0; }
    static void assume_valid(const float& x) noexcept { vc_assume(!snan(x)); }
    static bool ok(const float&) noexcept { return true; }
    static u64 after_move(u64 x) noexcept { return x; }
};
inline u32 g_pointees[4];
template<>
struct M<u32*> {
    static constexpr bool tracked = false;
    static u32* make(u32 x) { return reinterpret_cast<u32*>(std::uintptr_t(x)); }
    static u64 val(u32* const& x) noexcept { return reinterpret_cast<std::uintptr_t>(x); }
    static u64 lift(u32 x) noexcept { return reinterpret_cast<std::uintptr_t>(make(x)); }
    static void assume_valid(u32* const& p) noexcept { const u64 a = reinterpret_cast<std::uintptr_t>(p); vc_assume(a < 0x800000000000u || a >= 0xffff800000000000u); }
    static bool ok(u32* const&) noexcept { return true; }
    static u64 after_move(u64 x) noexcept { return x; }
};
struct Pod { u32 a; u32 b; };                                       // plain aggregate without reserved representations
template<>
struct M<Pod> {
    static constexpr bool tracked = false;
    static Pod make(u32 x) { return Pod{x, ~x}; }
    static u64 val(const Pod& x) noexcept { return u64(x.a) << 32 | x.b; }
    static u64 lift(u32 x) noexcept { return u64(x) << 32 | u32(~x); }
    static void assume_valid(const Pod&) noexcept {}
    static bool ok(const Pod&) noexcept { return true; }
    static u64 after_move(u64 x) noexcept { return x; }
};
template<class T>
struct M_abs {
    static constexpr bool tracked = true;
    static T make(u32 x) { return T(V{x}); }
    static u64 val(const T& x) noexcept { return x.v; }
    static u64 lift(u32 x) noexcept { return x; }
    static u64 after_move(u64 x) noexcept { return u32(vc_uf(UF_MOVED, x, 0)); }
};
template<int Tag, u32 ML, bool NX, bool C>
struct M<Abs<Tag, ML, NX, C>> : M_abs<Abs<Tag, ML, NX, C>> {
    using T = Abs<Tag, ML, NX, C>;
    static void assume_valid(const T& x) noexcept { vc_assume(x.lvl == ML); vc_ghost_set(&x, ALIVE, Tag); }
    static bool ok(const T& x) noexcept { return T::alive(&x) && x.lvl == ML; }
};
template<int Tag, u32 ML>
struct M<AbsTA<Tag, ML>> : M_abs<AbsTA<Tag, ML>> {
    using T = AbsTA<Tag, ML>;
    static void assume_valid(const T& x) noexcept { vc_assume(x.lvl == ML); vc_ghost_set(&x, ALIVE, Tag); }
    static bool ok(const T& x) noexcept { return T::alive(&x) && x.lvl == ML; }
};
template<int Mask, u32 ML>
struct M<Triv<Mask, ML>> : M_abs<Triv<Mask, ML>> {
    using T = Triv<Mask, ML>;
    static constexpr bool tracked = false;
    static void assume_valid(const T& x) noexcept { vc_assume(x.lvl == ML); }
    static bool ok(const T& x) noexcept { return x.lvl == ML; }
    static u64 after_move(u64 x) noexcept { return u32(vc_uf(UF_MOVED, x, 0)); }
};
template<u32 ML>
struct M<Hos<ML>> : M_abs<Hos<ML>> {
    static void assume_valid(const Hos<ML>& x) noexcept { M<Abs<1, ML>>::assume_valid(x); }
    static bool ok(const Hos<ML>& x) noexcept { return M<Abs<1, ML>>::ok(x); }
};
template<u32 ML>
struct M<HosV<ML>> : M_abs<HosV<ML>> {
    static constexpr bool tracked = false;
    static void assume_valid(const HosV<ML>& x) noexcept { vc_assume(x.lvl == ML); }
    static bool ok(const HosV<ML>& x) noexcept { return x.lvl == ML; }
    static u64 after_move(u64 x) noexcept { return u32(vc_uf(UF_MOVED, x, 0)); }
};
template<>
struct M<Cmp> : M_abs<Cmp> {
    static constexpr bool tracked = false;
    static Cmp make(u32 x) { return Cmp{x}; }
    static void assume_valid(const Cmp&) noexcept {}
    static bool ok(const Cmp&) noexcept { return true; }
};
template<>
struct M<Cmp2> : M_abs<Cmp2> {
    static constexpr bool tracked = false;
    static Cmp2 make(u32 x) { return Cmp2{x}; }
    static void assume_valid(const Cmp2&) noexcept {}
    static bool ok(const Cmp2&) noexcept { return true; }
};

// an element that is itself an option: bit 40 of the abstract value is its state
template<class E>
struct M<opt::option<E>> {
    using T = opt::option<E>;
    static constexpr bool tracked = false;                          // copies and moves depend on the inner state
    static T make(u32 x) { if (x & 1) { return T(std::in_place, M<E>::make(x >> 1)); } return T{}; }
    static u64 val(const T& o) noexcept { return o.has_value() ? u64(1) << 40 | M<E>::val(o.get_unchecked()) : 0; }
    static u64 lift(u32 x) noexcept { return (x & 1) ? u64(1) << 40 | M<E>::lift(x >> 1) : 0; }
    static void assume_valid(const T& o) noexcept { if (o.has_value()) { M<E>::assume_valid(o.get_unchecked()); } }
    static bool ok(const T& o) noexcept { return !o.has_value() || M<E>::ok(o.get_unchecked()); }
    static u64 after_move(u64 x) noexcept { return x >> 40 ? u64(1) << 40 | M<E>::after_move(u32(x)) : 0; }
};

// a const element: the same values, never assigned to and never moved from
template<class T>
struct M<const T, std::enable_if_t<!std::is_integral_v<T> || std::is_same_v<T, bool>>> : M<T> {
    static u64 after_move(u64 x) noexcept { return x; }
};

// --- Arb<T>: an option in an arbitrary state that satisfies the representation invariant ------------------------------
// The bytes are arbitrary; the precondition only says that the option's own queries are well defined on them and that
// the element, if any, is a valid live object: nothing about the layout is assumed.
template<class T>
struct Arb {
    using O = opt::option<T>;
    alignas(O) unsigned char buf[sizeof(O)];
    O& o;
    bool h;          // engaged
    u64 v;           // abstract value when engaged
    Arb() noexcept : o(*reinterpret_cast<O*>(buf)), h(false), v(0) {
        vc_havoc(buf, sizeof(O));
        vc_spec(true);
        h = o.has_value();
        if (h) {
            M<T>::assume_valid(o.get_unchecked());
            v = M<T>::val(o.get_unchecked());
        }
        vc_spec(false);
    }
    Arb(const Arb&) = delete;
    void destroy() noexcept { o.~O(); }
};

// read-only observers used in postconditions
template<class T>
bool is_val(const opt::option<T>& o, u64 v) noexcept {
    return o.has_value() && M<std::remove_cv_t<T>>::ok(o.get_unchecked()) && M<std::remove_cv_t<T>>::val(o.get_unchecked()) == v;
}
template<class T>
bool is_state(const opt::option<T>& o, bool h, u64 v) noexcept {
    return h ? is_val(o, v) : !o.has_value();
}
template<class T>
u8 how(const opt::option<T>& o) noexcept { return o.get_unchecked().how; }
inline u32 live(u32 tag) noexcept { return vc_ghost_count(ALIVE, tag); }

#define VC_SPEC(NAME) extern "C" void spec_##NAME()
#define VC_CAT2(a, b) a##b
#define VC_CAT(a, b) VC_CAT2(a, b)

// a function object that tells as which kind of expression it was called
template<class F>
struct Callee {
    F f;
    u32 cat = 0;
    mutable u32 ccat = 0;
    template<class... A> decltype(auto) operator()(A&&...) & { cat = cat * 8 + 1; return f(); }
    template<class... A> decltype(auto) operator()(A&&...) const& { ccat = ccat * 8 + 2; return f(); }
    template<class... A> decltype(auto) operator()(A&&...) && { cat = cat * 8 + 3; return f(); }
    template<class... A> decltype(auto) operator()(A&&...) const&& { ccat = ccat * 8 + 4; return f(); }
};
// op(fn) passes a function on: it is called once exactly when `when` holds, with the value category it was given with
template<class F, class Op>
void callee_category(bool when, F f, Op op) {
    Callee<F> fn{f};
    op(fn);
    vc_assert(fn.cat == (when ? 1u : 0u) && fn.ccat == 0, "an l-value function is called once as l-value, exactly when it is due");
    fn.cat = 0;
    op(std::as_const(fn));
    vc_assert(fn.ccat == (when ? 2u : 0u) && fn.cat == 0, "a const l-value function is called once as const l-value, exactly when it is due");
    fn.ccat = 0;
    op(std::move(fn));
    vc_assert(fn.cat == (when ? 3u : 0u) && fn.ccat == 0, "an r-value function is called once as r-value, exactly when it is due");
    fn.cat = 0;
    op(std::move(std::as_const(fn)));
    vc_assert(fn.ccat == (when ? 4u : 0u) && fn.cat == 0, "a const r-value function is called once as const r-value, exactly when it is due");
}
#define FWD(fn) static_cast<decltype(fn)&&>(fn)

// An element that records the value category of the arguments it was built or assigned from: 1 l-value, 2 const l-value, 3 r-value, 4 const r-value
struct Arg { u32 x; };
template<class A> inline constexpr u32 category = (std::is_lvalue_reference_v<A> ? 1u : 3u) + (std::is_const_v<std::remove_reference_t<A>> ? 1u : 0u);
template<class A> inline constexpr bool is_arg = std::is_same_v<std::remove_cv_t<std::remove_reference_t<A>>, Arg>;
struct Fwd {
    u32 c1 = 0, c2 = 0, n = 0;
    template<class A, std::enable_if_t<is_arg<A>, int> = 0> Fwd(A&& a) noexcept : c1(category<A&&>), n(a.x) {}
    template<class A, class B, std::enable_if_t<is_arg<A> && is_arg<B>, int> = 0> Fwd(A&& a, B&& b) noexcept : c1(category<A&&>), c2(category<B&&>), n(a.x + b.x) {}
    template<class A, class B, class C, std::enable_if_t<is_arg<A> && is_arg<B> && is_arg<C>, int> = 0> Fwd(A&& a, B&& b, C&& c) noexcept : c1(category<A&&>), c2(category<B&&>), n(a.x + b.x + 16 * category<C&&>) {}
    template<class A, std::enable_if_t<is_arg<A>, int> = 0> Fwd(std::initializer_list<Arg> l, A&& a) noexcept : c1(u32(l.size())), c2(category<A&&>), n(a.x) {}
    template<class A, std::enable_if_t<is_arg<A>, int> = 0> Fwd& operator=(A&& a) noexcept { c1 = 16 + category<A&&>; n = a.x; return *this; }
};
// op(a) / op(a, b) yield the element built from its arguments: each is passed on with the value category it was given with
template<class Op> void forwards1(u32 base, const char* what, Op op) {
    Arg a{vc_nondet_u32()};
    const u32 x = a.x;
    auto chk = [&](const Fwd& r, u32 c) { vc_assert(r.c1 == base + c && r.n == x, what); };
    chk(op(a), 1); chk(op(std::as_const(a)), 2); chk(op(std::move(a)), 3); chk(op(std::move(std::as_const(a))), 4);
}
template<class Op> void forwards2(const char* what, Op op) {
    Arg a{vc_nondet_u32()}, b{vc_nondet_u32()};
    const u32 x = a.x + b.x;
    auto chk = [&](const Fwd& r, u32 c, u32 d) { vc_assert(r.c1 == c && r.c2 == d && r.n == x, what); };
    chk(op(a, b), 1, 1); chk(op(a, std::as_const(b)), 1, 2); chk(op(a, std::move(b)), 1, 3); chk(op(std::as_const(a), std::move(std::as_const(b))), 2, 4);
    chk(op(std::move(a), b), 3, 1); chk(op(std::move(a), std::move(b)), 3, 3); chk(op(std::move(std::as_const(a)), std::as_const(b)), 4, 2);
}
template<class Op> void forwards_list(const char* what, Op op) {
    Arg b{vc_nondet_u32()};
    const u32 x = b.x;
    auto chk = [&](const Fwd& r, u32 c) { vc_assert(r.c1 == 2 && r.c2 == c && r.n == x, what); };
    chk(op(b), 1); chk(op(std::as_const(b)), 2); chk(op(std::move(b)), 3); chk(op(std::move(std::as_const(b))), 4);
}

// --- families of representative element types ---------------------------------------------------------------------------
#define FAM_SCALAR(I) I(int, u32) I(byte, u8) I(pod, Pod) I(bool, bool) I(float, float) I(ptr, u32*)
#define FAM_ABS(I) I(abs, Abs<1>) I(abs_t1, Abs<1, 1>) I(abs_t3, Abs<1, 3>) I(thr, Abs<1, 0, false>) I(thr_t2, Abs<1, 2, false>) I(ta, AbsTA<1>) I(ta_t2, AbsTA<1, 2>) I(hos, Hos<0>) I(hos_t2, Hos<2>)
#define FAM_MOVEONLY(I) I(mo, Abs<1, 0, true, false>) I(mo_t1, Abs<1, 1, true, false>) I(mo_thr, Abs<1, 0, false, false>)
#define FAM_TRIV(I) I(triv0, Triv<0>) I(triv0_t2, Triv<0, 2>) I(triv15, Triv<15>) I(triv15_t2, Triv<15, 2>) I(hosv, HosV<0>) I(hosv_t2, HosV<2>)
#define FAM_TRIV_ALL(I)                                                                                                  \
    I(triv0, Triv<0>) I(triv1, Triv<1>) I(triv2, Triv<2>) I(triv3, Triv<3>) I(triv4, Triv<4>) I(triv5, Triv<5>)          \
    I(triv6, Triv<6>) I(triv7, Triv<7>) I(triv8, Triv<8>) I(triv9, Triv<9>) I(triv10, Triv<10>) I(triv11, Triv<11>)      \
    I(triv12, Triv<12>) I(triv13, Triv<13>) I(triv14, Triv<14>) I(triv15, Triv<15>)
#define FAM_TRIV_ALL_T(I)                                                                                                \
    I(triv0_t, Triv<0, 2>) I(triv1_t, Triv<1, 2>) I(triv2_t, Triv<2, 2>) I(triv3_t, Triv<3, 2>) I(triv4_t, Triv<4, 2>)   \
    I(triv5_t, Triv<5, 2>) I(triv6_t, Triv<6, 2>) I(triv7_t, Triv<7, 2>) I(triv8_t, Triv<8, 2>) I(triv9_t, Triv<9, 2>)   \
    I(triv10_t, Triv<10, 2>) I(triv11_t, Triv<11, 2>) I(triv12_t, Triv<12, 2>) I(triv13_t, Triv<13, 2>)                  \
    I(triv14_t, Triv<14, 2>) I(triv15_t, Triv<15, 2>)
#define FAM_HOS(I) I(hos, Hos<0>) I(hos_t2, Hos<2>) I(hosv, HosV<0>) I(hosv_t2, HosV<2>)
#define FAM_OPT(I) I(opt_int, opt::option<u32>) I(opt_bool, opt::option<bool>) I(opt_triv, opt::option<Triv<0>>) I(opt_triv_t, opt::option<Triv<0, 2>>) I(opt_abs, opt::option<Abs<1>>) I(opt_abs_t2, opt::option<Abs<1, 2>>)
#define FAM_CONST(I) I(c_int, const u32) I(c_bool, const bool) I(c_ptr, u32* const) I(c_pod, const Pod) I(c_triv15, const Triv<15>) I(c_triv15_t2, const Triv<15, 2>) I(c_abs, const Abs<1>) I(c_abs_t2, const Abs<1, 2>) I(c_thr, const Abs<1, 0, false>)
#define FAM_CONST_MO(I) I(c_mo, const Abs<1, 0, true, false>) I(c_mo_t1, const Abs<1, 1, true, false>)
#define FAM_COPY(I) FAM_SCALAR(I) FAM_ABS(I) FAM_TRIV(I)
#define FAM_ALL(I) FAM_COPY(I) FAM_MOVEONLY(I)

// which of T's special members are observable (user-provided)
template<class T> struct Ops { static constexpr bool obs = false, cc = false, ca = false, mc = false, ma = false; };
template<int Tag, u32 ML, bool NX, bool C> struct Ops<Abs<Tag, ML, NX, C>> { static constexpr bool obs = true, cc = true, ca = true, mc = true, ma = true; };
template<int Tag, u32 ML> struct Ops<AbsTA<Tag, ML>> { static constexpr bool obs = true, cc = true, ca = false, mc = true, ma = false; };
template<int K, u32 ML> struct Ops<Triv<K, ML>> { static constexpr bool obs = true, cc = (K & 1) != 0, ca = (K & 2) != 0, mc = (K & 4) != 0, ma = (K & 8) != 0; };
template<class T> struct Ops<const T> { static constexpr bool obs = Ops<T>::obs, cc = Ops<T>::cc, ca = false, mc = false, ma = false; };   // copied even from r-values
template<u32 ML> struct Ops<Hos<ML>> : Ops<Abs<1, ML>> {};
template<u32 ML> struct Ops<HosV<ML>> : Ops<Triv<0, ML>> {};
template<class T> u8 how_of(const opt::option<T>& o) noexcept { if constexpr (Ops<T>::obs) { return o.has_value() ? o.get_unchecked().how : 0; } else { return 0; } }
// value left behind by a move construction / assignment
template<class T> struct Leaves : Ops<T> {};
template<class E> struct Leaves<opt::option<E>> : Leaves<E> {};
template<class T> u64 left_mc(u64 v) noexcept { return Leaves<T>::mc ? M<T>::after_move(v) : v; }
template<class T> u64 left_ma(u64 v) noexcept { return Leaves<T>::ma ? M<T>::after_move(v) : v; }

// how a value assigned to an option arrives: by T's assignment when engaged, by T's construction when empty
template<class T> u8 how_vassign(bool h) { return h ? u8(VASSIGNED) : u8(BUILT); }
template<class T> u8 how_cassign(bool h, u8 src) { return h ? (Ops<T>::ca ? u8(CASSIGNED) : src) : (Ops<T>::cc ? u8(COPIED) : src); }
template<class T> u8 how_massign(bool h, u8 src) { return h ? (Ops<T>::ma ? u8(MASSIGNED) : src) : (Ops<T>::mc ? u8(MOVED) : src); }
// an r-value operand is moved from, never copied (when T tells the difference)
#define NOCOPY(L) vc_assert(g_copy == 0 && g_casg == 0, L ": r-values are moved, not copied")

// one of several independent cases of a contract (each case starts from its own arbitrary state)
#define ALT(...) if (vc_nondet_bool()) { __VA_ARGS__ return; }
