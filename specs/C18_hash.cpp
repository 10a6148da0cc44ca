// C18: hashing agrees with equality
#include "abs.hpp"
#include <functional>
#include <string_view>

inline u32 g_hashes = 0;                                            // calls of a user hash
template<class T> struct UserHash {
    std::size_t operator()(const T& x) const noexcept(std::is_same_v<T, Cmp>) {
        ++g_hashes;
        if constexpr (Ops<T>::obs) { vc_assert(M<T>::ok(x), "hashing never reads an absent value"); }
        return std::size_t(vc_uf(UF_HASH, M<T>::val(x), 0));
    }
};
template<> struct std::hash<Cmp> : UserHash<Cmp> {};
template<int Tag, u32 ML, bool NX, bool C> struct std::hash<Abs<Tag, ML, NX, C>> : UserHash<Abs<Tag, ML, NX, C>> {};
template<int K, u32 ML> struct std::hash<Triv<K, ML>> : UserHash<Triv<K, ML>> {};
template<> struct std::hash<Pod> : UserHash<Pod> {};
template<class A, class = decltype(A::how)> bool operator==(const A& a, const A& b) noexcept { return a.v == b.v; }
bool operator==(const Pod& a, const Pod& b) noexcept { return a.a == b.a && a.b == b.b; }

template<class T>
void hashing() {
    using O = opt::option<T>;
    using H = std::hash<O>;
    Arb<T> a, b;
    vc_cover("reached");
    if (!a.h && !b.h) { vc_cover("both empty"); }
    if (a.h && b.h) { vc_cover("both engaged"); }
    const std::size_t ha = H{}(a.o), hb = H{}(b.o);
    if (a.h) { vc_assert(ha == std::hash<T>{}(a.o.get()), "an engaged option hashes to std::hash of its value"); }
    if (!a.h) {
        const O e, n(opt::none);
        vc_assert(ha == H{}(e) && ha == H{}(n), "every empty representation hashes to the same fixed value");
        if (!b.h) { vc_assert(ha == hb, "any two empty options hash equal"); }
    }
    if (a.h && b.h && a.v == b.v) { vc_assert(ha == hb, "the hash depends on the logical state only"); }
    vc_assert(is_state(a.o, a.h, a.v) && is_state(b.o, b.h, b.v), "hashing changes nothing");
    if constexpr (!std::is_same_v<T, Cmp>) { if (a.o == b.o) { vc_assert(ha == hb, "equal options hash equal"); } }
    a.destroy();
    b.destroy();
}
template<class T>
void user_calls() {                                                // the element's hash is used exactly once, and only on a value
    Arb<T> a;
    vc_cover("reached");
    g_hashes = 0;
    (void)std::hash<opt::option<T>>{}(a.o);
    vc_assert(g_hashes == (a.h ? 1 : 0), "the element's hash is evaluated once iff there is a value");
    (void)std::hash<opt::option<const T>>{}(opt::option<const T>{});
    vc_assert(g_hashes == (a.h ? 1 : 0), "an empty option<const T> hashes nothing");
    a.destroy();
}
#define I1(NAME, ...) VC_SPEC(C18_hash_##NAME) { hashing<__VA_ARGS__>(); }
I1(int, u32) I1(byte, u8) I1(bool, bool) I1(ptr, u32*) I1(float, float) I1(pod, Pod)
I1(abs, Abs<1>) I1(abs_t1, Abs<1, 1>) I1(abs_t3, Abs<1, 3>) I1(thr, Abs<1, 0, false>) I1(mo_t1, Abs<1, 1, true, false>) I1(triv15, Triv<15>) I1(triv15_t2, Triv<15, 2>)
#define I2(NAME, ...) VC_SPEC(C18_user_##NAME) { user_calls<__VA_ARGS__>(); }
I2(abs, Abs<1>) I2(abs_t3, Abs<1, 3>) I2(triv0_t2, Triv<0, 2>) I2(pod, Pod)

VC_SPEC(C18_arbitrary_equality) {                                   // arbitrary ==, assumed consistent with the user's own hash
    Arb<Cmp> a, b;
    if (a.h && b.h) {
        vc_spec(true);
        const bool eq = a.o.get() == b.o.get(), same = std::hash<Cmp>{}(a.o.get()) == std::hash<Cmp>{}(b.o.get());
        vc_spec(false);
        vc_assume(!eq || same);
    }
    vc_cover("reached");
    if (a.o == b.o) { vc_cover("equal"); vc_assert(std::hash<opt::option<Cmp>>{}(a.o) == std::hash<opt::option<Cmp>>{}(b.o), "equal options hash equal"); }
}
VC_SPEC(C18_const_element) {
    const u32 x = vc_nondet_u32();
    const bool h = vc_nondet_bool();
    opt::option<const u32> o;
    if (h) { o.emplace(x); }
    vc_cover("reached");
    vc_assert(std::hash<opt::option<const u32>>{}(o) == (h ? std::hash<u32>{}(x) : std::hash<opt::option<u32>>{}(opt::none)) || !h, "option<const T> hashes like its value");
    const opt::option<const u32> e;
    if (!h) { vc_assert(std::hash<opt::option<const u32>>{}(o) == std::hash<opt::option<const u32>>{}(e), "empty options hash equal"); }
}
template<class R, class T>
void references(T& x, T& y) {                                       // equality of reference options compares the referents
    using H = std::hash<opt::option<R>>;
    opt::option<R> a, b;
    const u32 ka = vc_nondet_u32() % 3, kb = vc_nondet_u32() % 3;
    T* const pa = ka == 0 ? nullptr : ka == 1 ? &x : &y;
    T* const pb = kb == 0 ? nullptr : kb == 1 ? &x : &y;
    if (pa) { a.emplace(static_cast<R>(*pa)); }
    if (pb) { b.emplace(static_cast<R>(*pb)); }
    vc_cover("reached");
    if (a == b) { vc_cover("equal"); vc_assert(H{}(a) == H{}(b), "equal reference options hash equal"); }
    if (pa) { vc_assert(H{}(a) == std::hash<std::remove_const_t<T>>{}(*pa), "a reference option hashes to the hash of its value"); }
    if (!pa && !pb) { vc_assert(H{}(a) == H{}(b), "empty reference options hash equal"); }
}
VC_SPEC(C18_reference) { u32 x = vc_nondet_u32(), y = vc_nondet_u32(); references<u32&>(x, y); }
VC_SPEC(C18_const_reference) { const u32 x = vc_nondet_u32(), y = vc_nondet_u32(); references<const u32&>(x, y); }
VC_SPEC(C18_rvalue_reference) { u32 x = vc_nondet_u32(), y = vc_nondet_u32(); references<u32&&>(x, y); }
VC_SPEC(C18_nested) {                                               // an option's hash is itself an element hash
    using I = opt::option<bool>;
    using O = opt::option<I>;
    Arb<bool> s, t;
    const bool l = vc_nondet_bool(), m = vc_nondet_bool();
    O a, b;
    if (l) { a.emplace(s.o); }
    if (m) { b.emplace(t.o); }
    vc_cover("reached");
    if (l) { vc_assert(std::hash<O>{}(a) == std::hash<I>{}(s.o), "a nested option hashes to the hash of its contained option"); }
    if (a == b) { vc_assert(std::hash<O>{}(a) == std::hash<O>{}(b), "equal nested options hash equal"); }
}
