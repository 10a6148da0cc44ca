// C05: nested options keep every level distinct.
// Inductive step (PART 1): if T meets the contract of opt::option_traits with n levels, option<T> meets it with n - 1
// levels (n >= 1), or with the levels of its flag (n = 0); reference options offer levels of their own.
// Operations (PART 2-4): the state machine of an option nested 2, 3 and 4 deep, over abstract and concrete innermost types,
// including types whose levels run out on the way.
// vc-part: -DPART=1
// vc-part: -DPART=2 -DDEPTH=2
// vc-part: -DPART=2 -DDEPTH=3
// vc-part: -DPART=2 -DDEPTH=4
// vc-part: -DPART=3 -DDEPTH=3
// vc-part: -DPART=4
#include "traits_contract.hpp"

template<class T, int N> struct NestT { using type = opt::option<typename NestT<T, N - 1>::type>; };
template<class T> struct NestT<T, 1> { using type = opt::option<T>; };
template<class T, int N> using Nest = typename NestT<T, N>::type;

// innermost element: abstract value, validity, and ways to write it
inline int g_pool[4];
template<class T> struct In {
    static u64 val(const opt::option<T>& o) { return M<T>::val(o.get_unchecked()); }
    static void assume(const opt::option<T>& o) { M<T>::assume_valid(o.get_unchecked()); }
    static bool ok(const opt::option<T>& o) { return M<T>::ok(o.get_unchecked()); }
    static T make(u32 x) { return M<T>::make(x); }
    static u64 lift(u32 x) { return M<T>::lift(x); }
    static constexpr bool movable_back = true;
    static u64 left_mc(u64 v) { return ::left_mc<T>(v); }
    static u64 left_ma(u64 v) { return ::left_ma<T>(v); }
};
template<class R> struct InRef {
    using O = opt::option<R>;
    static u64 val(const O& o) { return reinterpret_cast<std::uintptr_t>(o.ptr_or_null()); }
    static void assume(const O& o) { const u64 a = val(o); vc_assume(a >= 4096 && user_addr(a)); }
    static bool ok(const O&) { return true; }
    static int& make(u32 x) { return g_pool[x & 3]; }
    static u64 lift(u32 x) { return reinterpret_cast<std::uintptr_t>(&g_pool[x & 3]); }
    static u64 left_mc(u64 v) { return v; }
    static u64 left_ma(u64 v) { return v; }
};
template<> struct In<int&> : InRef<int&> {};
template<> struct In<const int&> : InRef<const int&> {};
template<> struct M<std::string_view> {
    static u64 val(const std::string_view& s) { return reinterpret_cast<std::uintptr_t>(s.data()); }
    static u64 lift(u32 x) { return x; }
    static std::string_view make(u32 x) { return std::string_view(reinterpret_cast<const char*>(u64(x)), 3); }
    static void assume_valid(const std::string_view& s) { vc_assume(user_addr(val(s))); }
    static bool ok(const std::string_view&) { return true; }
    static u64 after_move(u64 x) { return x; }
};

template<class T, int N>
struct NS {
    using O = Nest<T, N>;
    static int depth(const O& o) {                                  // 0: outermost empty, ..., N: engaged at every depth
        if (!o.has_value()) { return 0; }
        if constexpr (N == 1) { return 1; } else { return 1 + NS<T, N - 1>::depth(o.get_unchecked()); }
    }
    template<int K> static auto& at(O& o) { if constexpr (K == 0) { return o; } else { return NS<T, N - 1>::template at<K - 1>(o.get_unchecked()); } }
    static const opt::option<T>& inner(const O& o) { if constexpr (N == 1) { return o; } else { return NS<T, N - 1>::inner(o.get_unchecked()); } }
    static bool is(const O& o, int d, u64 v) {
        return depth(o) == d && (d < N || (In<T>::ok(inner(o)) && In<T>::val(inner(o)) == v));
    }
    // write state d through the public constructors
    static O build(int d, u32 x) {
        if constexpr (N == 1) {
            if (d == 0) { return O{}; }
            return O(std::in_place, In<T>::make(x));
        } else {
            if (d == 0) { return O{}; }
            return O(std::in_place, NS<T, N - 1>::build(d - 1, x));
        }
    }
};

// an arbitrary state: any bytes on which the queries at every depth are defined
template<class T, int N>
struct NArb {
    using O = Nest<T, N>;
    alignas(O) unsigned char buf[sizeof(O)];
    O& o;
    int d;
    u64 v;
    NArb() : o(*reinterpret_cast<O*>(buf)), d(0), v(0) {
        vc_havoc(buf, sizeof(O));
        vc_spec(true);
        d = NS<T, N>::depth(o);
        if (d == N) {
            In<T>::assume(NS<T, N>::inner(o));
            v = In<T>::val(NS<T, N>::inner(o));
        }
        vc_spec(false);
    }
    NArb(const NArb&) = delete;
    void destroy() { o.~O(); }
};

#if PART == 1
template<class T>
void step() {
    using O = opt::option<T>;
    using Tr = opt::option_traits<O>;
    vc_cover("reached");
    if constexpr (std::is_reference_v<T>) {
        vc_assert(Tr::max_level >= 255, "reference options offer levels");
    } else {
        constexpr std::uintmax_t n = opt::option_traits<T>::max_level;
        if constexpr (n >= 1) { vc_assert(Tr::max_level == n - 1, "an option without a flag offers one level less than its element"); }
        else { vc_assert(Tr::max_level == opt::option_traits<bool>::max_level, "an option with a flag offers the levels of the flag"); }
    }
    if constexpr (Tr::max_level != 0) {
        NArb<T, 1> s;
        vc_snap(s.buf, sizeof(O), 1);
        vc_assert(Tr::get_level(&s.o) >= Tr::max_level, "no state of the option is a reserved representation");
        vc_assert(vc_same(s.buf, sizeof(O), 1) && NS<T, 1>::is(s.o, s.d, s.v), "asking for the level changes nothing");
        s.destroy();
        Raw<O> r;
        vc_make_indeterminate(r.b, sizeof(O));
        const u64 l = vc_nondet_u64();
        vc_assume(l < Tr::max_level);
        Tr::set_level(r.p(), l);
        vc_assert(Tr::get_level(r.p()) == l, "a level is read back as written");
        vc_assert(live(1) == 0, "writing a level creates no object");
    }
}
#define STEP_TYPES(I)                                                                                                         \
    FAM_SCALAR(I) FAM_ABS(I) FAM_MOVEONLY(I) FAM_TRIV(I) I(abs_t2, Abs<1, 2>) I(ta_t1, AbsTA<1, 1>) I(triv_t1, Triv<15, 1>) \
    I(sv, std::string_view) I(ref, int&) I(cref, const int&)
#define I(N, ...) VC_SPEC(step_##N) { step<__VA_ARGS__>(); }
STEP_TYPES(I)
#undef I
#elif PART == 4

// the base case of the induction: the built-in element types meet the contract of opt::option_traits
#define I(N, ...) VC_SPEC(base_##N) { contract<__VA_ARGS__>(); }
TYPES(I) HEAVY_TYPES(I)
#undef I
VC_SPEC(base_poly) { trait_polymorphic<Poly>(); }
VC_SPEC(base_polyd) { trait_polymorphic<PolyD>(); }
// every legitimate value, held at every depth
template<class T, int N>
void deep_value() {
    using S = NS<T, N>;
    using O = Nest<T, N>;
    Raw<T> x;
    Legit<T>::make(x.b);
    const Id e = Legit<T>::id(x.b);
    vc_cover("reached");
    O o(std::in_place, *x.p());
    vc_assert(S::depth(o) == N && Legit<T>::id(&S::inner(o).get_unchecked()) == e, "a nested option holds every legitimate value at every depth");
    O c(o);
    vc_assert(S::depth(c) == N && Legit<T>::id(&S::inner(c).get_unchecked()) == e, "so does its copy");
    S::template at<N - 1>(o).reset();
    vc_assert(S::depth(o) == N - 1, "emptying the innermost depth empties only that depth");
    S::template at<N - 1>(o).emplace(*x.p());
    vc_assert(S::depth(o) == N && Legit<T>::id(&S::inner(o).get_unchecked()) == e, "and it can be filled again");
}
#define I(N, ...) VC_SPEC(deep_value2_##N) { deep_value<__VA_ARGS__, 2>(); } VC_SPEC(deep_value4_##N) { deep_value<__VA_ARGS__, 4>(); }
TYPES(I) FLAG_TYPES(I)
#undef I
// null / empty owners at depth N
template<class T, int N>
void deep_owner() {
    using S = NS<T, N>;
    using O = Nest<T, N>;
    vc_cover("reached");
    O o(std::in_place, T{});
    vc_assert(S::depth(o) == N, "an empty owner is a value at every depth");
    S::template at<N - 1>(o).reset();
    vc_assert(S::depth(o) == N - 1, "emptying the innermost depth empties only that depth");
    S::template at<N - 1>(o).emplace();
    vc_assert(S::depth(o) == N, "and it can be filled again");
    O m(static_cast<O&&>(o));
    vc_assert(S::depth(m) == N && S::depth(o) == N, "moving keeps every depth");
    m.reset();
    vc_assert(S::depth(m) == 0, "emptying the outermost depth");
}
#define I(NAME, ...) VC_SPEC(deep_owner3_##NAME) { deep_owner<__VA_ARGS__, 3>(); } VC_SPEC(deep_owner5_##NAME) { deep_owner<__VA_ARGS__, 5>(); }
HEAVY_TYPES(I)
#undef I
#else

#define SCALAR_T(I) I(int, u32) I(bool, bool) I(ptr, u32*) I(float, float) I(sv, std::string_view) I(ref, int&)
#define ABS_T(I)                                                                                                         \
    I(abs, Abs<1>) I(abs_t1, Abs<1, 1>) I(abs_t2, Abs<1, 2>) I(abs_t3, Abs<1, 3>) I(mo_t1, Abs<1, 1, true, false>)        \
    I(ta_t1, AbsTA<1, 1>) I(triv0_t1, Triv<0, 1>) I(triv15_t1, Triv<15, 1>) I(triv15, Triv<15>) I(triv15_t2, Triv<15, 2>)
#define ALTE(...) if (vc_nondet_bool()) { __VA_ARGS__ vc_end(); }
constexpr int N = DEPTH;

template<class T, class F, int... K> void each_depth_impl(F f, std::integer_sequence<int, K...>) { (f(std::integral_constant<int, K>{}), ...); }
template<class T, class F> void each_depth(F f) { each_depth_impl<T>(f, std::make_integer_sequence<int, N>{}); }

#if PART == 2
template<class T>
void construct() {
    using S = NS<T, N>;
    using O = Nest<T, N>;
    const u32 x = vc_nondet_u32();
    const int d = vc_nondet_u8();
    vc_assume(d <= N);
    vc_cover("reached");
    {
        O a = S::build(d, x);
        vc_assert(S::is(a, d, In<T>::lift(x)), "an option built empty at depth d is empty exactly at depth d");
        if constexpr (std::is_copy_constructible_v<O>) {
            O b(a);
            vc_assert(S::is(b, d, In<T>::lift(x)) && S::is(a, d, In<T>::lift(x)), "a copy has the same state at every depth");
        }
        O c(static_cast<O&&>(a));
        vc_assert(S::is(c, d, In<T>::lift(x)), "a moved-to option has the same state at every depth");
        vc_assert(S::is(a, d, In<T>::left_mc(In<T>::lift(x))), "a moved-from option keeps its state at every depth");
    }
    {
        O e = opt::none;
        vc_assert(S::depth(e) == 0, "none empties the outermost depth");
        O f(std::in_place);
        vc_assert(S::depth(f) == (N > 1 ? 1 : 0), "in_place engages the outermost depth only");
    }
    vc_assert(live(1) == 0, "every object was destroyed");
}
template<class T>
void mutate() {
    using S = NS<T, N>;
    vc_cover("reached");
    each_depth<T>([](auto k) {
        constexpr int K = decltype(k)::value;
        ALTE({
            NArb<T, N> s;
            if (s.d >= K) {
                S::template at<K>(s.o).reset();
                vc_assert(S::depth(s.o) == K, "reset at depth k leaves the option empty exactly at depth k");
                S::template at<K>(s.o).reset();
                vc_assert(S::depth(s.o) == K, "reset is idempotent");
            }
            s.destroy();
            vc_assert(live(1) == 0, "every object was destroyed");
        })
        ALTE({
            NArb<T, N> s;
            if (s.d >= K) {
                S::template at<K>(s.o) = opt::none;
                vc_assert(S::depth(s.o) == K, "assigning none at depth k leaves the option empty exactly at depth k");
            }
            s.destroy();
        })
        ALTE({
            NArb<T, N> s;
            const u32 x = vc_nondet_u32();
            if (s.d >= K) {
                if constexpr (K == N - 1) {
                    S::template at<K>(s.o).emplace(In<T>::make(x));
                    vc_assert(S::is(s.o, N, In<T>::lift(x)), "emplace at the innermost depth engages every depth");
                } else {
                    S::template at<K>(s.o).emplace();
                    vc_assert(S::depth(s.o) == K + 1, "emplace() at depth k engages exactly one more depth");
                }
            }
            s.destroy();
            vc_assert(live(1) == 0, "every object was destroyed");
        })
        if constexpr (std::is_move_constructible_v<Nest<T, N - K>>) {
            ALTE({
                NArb<T, N> s;
                if (s.d >= K) {
                    auto t = S::template at<K>(s.o).take();
                    vc_assert(S::depth(s.o) == K, "take at depth k leaves the option empty exactly at depth k");
                    vc_assert(NS<T, N - K>::is(t, s.d - K, s.v), "take at depth k returns the state of that depth");
                }
                s.destroy();
            })
        }
    });
}
template<class T>
void inspect() {                                                     // reading changes nothing
    using S = NS<T, N>;
    NArb<T, N> s;
    vc_cover("reached");
    vc_snap(s.buf, sizeof s.buf, 1);
    const auto& c = s.o;
    (void)c.has_value();
    (void)static_cast<bool>(c);
    vc_assert((c == opt::none) == (s.d == 0), "an option equals none exactly when its outermost depth is empty");
    if (s.d >= 1) { (void)c.get(); (void)*c; (void)c.ptr_or_null(); }
    vc_assert(vc_same(s.buf, sizeof s.buf, 1) && S::is(s.o, s.d, s.v), "reading changes nothing at any depth");
    s.destroy();
}
template<class T>
void assign() {
    using S = NS<T, N>;
    using O = Nest<T, N>;
    vc_cover("reached");
    if constexpr (std::is_copy_assignable_v<O>) {
        ALT({
            NArb<T, N> a;
            NArb<T, N> b;
            a.o = b.o;
            vc_assert(S::is(a.o, b.d, b.v) && S::is(b.o, b.d, b.v), "copy assignment copies the state of every depth");
            a.destroy();
            b.destroy();
            vc_assert(live(1) == 0, "every object was destroyed");
        })
    }
    ALT({
        NArb<T, N> a;
        NArb<T, N> b;
        a.o = static_cast<O&&>(b.o);
        vc_assert(S::is(a.o, b.d, b.v), "move assignment moves the state of every depth");
        vc_assert(S::depth(b.o) == b.d, "a moved-from option keeps its state at every depth");
        a.destroy();
        b.destroy();
        vc_assert(live(1) == 0, "every object was destroyed");
    })
    if constexpr (std::is_copy_constructible_v<O>) {                 // assignment and construction from the option one level below
        ALT({
            NArb<T, N> a;
            NArb<T, N - 1> b;
            a.o = b.o;
            vc_assert(S::is(a.o, b.d + 1, b.v), "assigning an inner option engages the outer one with exactly that state");
            a.destroy();
            O c(b.o);
            vc_assert(S::is(c, b.d + 1, b.v), "constructing from an inner option engages the outer one with exactly that state");
            b.destroy();
        })
    }
}
template<class T>
void swaps() {
    using S = NS<T, N>;
    NArb<T, N> a, b;
    vc_cover("reached");
    a.o.swap(b.o);
    vc_assert(S::is(a.o, b.d, b.v) && S::is(b.o, a.d, a.v), "swap exchanges the state of every depth");
    a.destroy();
    b.destroy();
}
#define I(NAME, ...) VC_SPEC(construct_##NAME) { construct<__VA_ARGS__>(); } VC_SPEC(mutate_##NAME) { mutate<__VA_ARGS__>(); }      \
    VC_SPEC(assign_##NAME) { assign<__VA_ARGS__>(); } VC_SPEC(inspect_##NAME) { inspect<__VA_ARGS__>(); }
SCALAR_T(I) ABS_T(I)
#undef I
#define I(NAME, ...) VC_SPEC(swap_##NAME) { swaps<__VA_ARGS__>(); }
SCALAR_T(I) ABS_T(I)
#undef I
// equality tells every pair of states apart
template<class T>
void equality() {
    NArb<T, N> a, b;
    vc_cover("reached");
    const bool same = a.d == b.d && (a.d < N || a.v == b.v);
    vc_assert((a.o == b.o) == same && (a.o != b.o) == !same, "two nested options are equal exactly when they are in the same state at every depth");
}
VC_SPEC(equality_int) { equality<u32>(); }
VC_SPEC(equality_bool) { equality<bool>(); }
VC_SPEC(equality_ptr) { equality<u32*>(); }

#elif PART == 3
// two independent nested options side by side: an operation on one never changes the other (composition with C06)
template<class T>
void neighbour() {
    using S = NS<T, N>;
    struct Two { unsigned char a[sizeof(Nest<T, N>)]; };
    NArb<T, N> s[2];
    vc_cover("reached");
    each_depth<T>([&](auto k) {
        constexpr int K = decltype(k)::value;
        ALTE({
            if (s[0].d >= K) { S::template at<K>(s[0].o).reset(); }
            vc_assert(S::is(s[1].o, s[1].d, s[1].v), "the neighbouring option is unchanged");
            s[0].destroy(); s[1].destroy();
        })
    });
}
VC_SPEC(neighbour_int) { neighbour<u32>(); }
VC_SPEC(neighbour_bool) { neighbour<bool>(); }
VC_SPEC(neighbour_abs_t2) { neighbour<Abs<1, 2>>(); }
#endif
#endif
