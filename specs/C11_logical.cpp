// C11: logical combinators follow their truth tables
#include "abs.hpp"

// a result taken from an operand by copying (CP) or moving (MV), and what the operand is left with
template<class T> void left_alone(const Arb<T>& s, const char* what) { vc_assert(is_state(s.o, s.h, s.v), what); }
template<class T> void moved_or_kept(const Arb<T>& s, bool selected, const char* what) {
    vc_assert(s.o.has_value() == s.h, what);
    if (!selected) { vc_assert(is_state(s.o, s.h, s.v), "the operand not selected is left unchanged"); }
}
#define END a.destroy(); b.destroy();
// how the value arrived when the operand is an r-value: moved (when observable)
template<class T> void by_move(const opt::option<T>& r, const char* what) { if constexpr (Ops<T>::mc) { if (r.has_value()) { vc_assert(how_of(r) == MOVED, what); } } }

template<class T>
void or_ops() {
    Arb<T> a, b;
    vc_cover("reached");
    const opt::option<T>& ca = a.o;
    const opt::option<T>& cb = b.o;
    const bool h = a.h || b.h;
    const u64 v = a.h ? a.v : b.v;
    if constexpr (std::is_copy_constructible_v<T>) {
        ALT({ { auto r = ca | cb; vc_assert(is_state(r, h, v), "a | b"); } left_alone(a, "a | b does not change a"); left_alone(b, "a | b does not change b"); END })
        ALT({ { auto r = a.o | b.o; vc_assert(is_state(r, h, v), "a | b (non-const)"); } left_alone(a, "a | b does not change a"); left_alone(b, "a | b does not change b"); END })
        ALT({ { auto r = std::move(a.o) | cb; vc_assert(is_state(r, h, v), "move(a) | b"); if (a.h) by_move(r, "move(a) | b moves a"); } moved_or_kept(a, a.h, "move(a) | b keeps a engaged"); left_alone(b, "move(a) | b does not change b"); END })
        ALT({ { auto r = ca | std::move(b.o); vc_assert(is_state(r, h, v), "a | move(b)"); if (!a.h) by_move(r, "a | move(b) moves b"); } moved_or_kept(b, !a.h, "a | move(b) keeps b engaged"); left_alone(a, "a | move(b) does not change a"); END })
    }
    ALT({ { auto r = std::move(a.o) | std::move(b.o); vc_assert(is_state(r, h, v), "move(a) | move(b)"); by_move(r, "move(a) | move(b) moves the selected operand"); } moved_or_kept(a, a.h, "move(a) | move(b) keeps a engaged"); moved_or_kept(b, !a.h, "move(a) | move(b) keeps b engaged"); END })
    END
}
template<class T>
void xor_ops() {
    Arb<T> a, b;
    vc_cover("reached");
    const opt::option<T>& ca = a.o;
    const opt::option<T>& cb = b.o;
    const bool h = a.h != b.h;
    const u64 v = a.h ? a.v : b.v;
    if constexpr (std::is_copy_constructible_v<T>) {
        ALT({ { auto r = ca ^ cb; vc_assert(is_state(r, h, v), "a ^ b"); } left_alone(a, "a ^ b does not change a"); left_alone(b, "a ^ b does not change b"); END })
        ALT({ { auto r = std::move(a.o) ^ cb; vc_assert(is_state(r, h, v), "move(a) ^ b"); if (a.h) by_move(r, "move(a) ^ b moves a"); } moved_or_kept(a, a.h && !b.h, "move(a) ^ b keeps a engaged"); left_alone(b, "move(a) ^ b does not change b"); END })
        ALT({ { auto r = ca ^ std::move(b.o); vc_assert(is_state(r, h, v), "a ^ move(b)"); if (b.h) by_move(r, "a ^ move(b) moves b"); } moved_or_kept(b, b.h && !a.h, "a ^ move(b) keeps b engaged"); left_alone(a, "a ^ move(b) does not change a"); END })
    }
    ALT({ { auto r = std::move(a.o) ^ std::move(b.o); vc_assert(is_state(r, h, v), "move(a) ^ move(b)"); by_move(r, "move(a) ^ move(b) moves the selected operand"); } moved_or_kept(a, a.h && !b.h, "move(a) ^ move(b) keeps a engaged"); moved_or_kept(b, b.h && !a.h, "move(a) ^ move(b) keeps b engaged"); END })
    END
}
template<class T, class U>
void and_ops() {
    Arb<T> a;
    Arb<U> b;
    vc_cover("reached");
    const opt::option<T>& ca = a.o;
    const opt::option<U>& cb = b.o;
    const bool h = a.h && b.h;
    if constexpr (std::is_copy_constructible_v<U>) {
        ALT({ { auto r = ca & cb; vc_assert(std::is_same_v<decltype(r), opt::option<U>>, "a & b is an option of b's type"); vc_assert(is_state(r, h, b.v), "a & b"); } left_alone(a, "a & b does not change a"); left_alone(b, "a & b does not change b"); END })
        ALT({ { auto r = std::move(a.o) & cb; vc_assert(is_state(r, h, b.v), "move(a) & b"); } left_alone(a, "a & b does not change a"); left_alone(b, "a & b does not change b"); END })
    }
    ALT({ { auto r = ca & std::move(b.o); vc_assert(is_state(r, h, b.v), "a & move(b)"); by_move(r, "a & move(b) moves b"); } moved_or_kept(b, a.h, "a & move(b) keeps b engaged"); left_alone(a, "a & b does not change a"); END })
    ALT({ { auto r = std::move(a.o) & std::move(b.o); vc_assert(is_state(r, h, b.v), "move(a) & move(b)"); by_move(r, "move(a) & move(b) moves b"); } moved_or_kept(b, a.h, "move(a) & move(b) keeps b engaged"); left_alone(a, "a & b does not change a"); END })
    END
}
template<class T>
void or_assign() {
    Arb<T> a, b;
    const u32 x = vc_nondet_u32();
    vc_cover("reached");
    const bool h = a.h || b.h;
    const u64 v = a.h ? a.v : b.v;
    if constexpr (std::is_copy_constructible_v<T>) {
        ALT({ { auto& r = (a.o |= std::as_const(b.o)); vc_assert(&r == &a.o, "|= returns its left operand"); vc_assert(is_state(a.o, h, v), "a |= b fills an empty a only"); } left_alone(b, "a |= b does not change b"); END })
        ALT({ { a.o |= b.o; vc_assert(is_state(a.o, h, v), "a |= b (non-const) fills an empty a only"); } left_alone(b, "a |= b does not change b"); END })
        ALT({ { const T t(M<T>::make(x)); a.o |= t; vc_assert(is_val(a.o, a.h ? a.v : M<T>::lift(x)), "a |= value fills an empty a only"); vc_assert(M<T>::val(t) == M<T>::lift(x), "a |= value does not change the value"); } END })
        ALT({ { a.o |= a.o; vc_assert(is_state(a.o, a.h, a.v), "a |= a changes nothing"); } END })
    }
    ALT({ { auto& r = (a.o |= std::move(b.o)); vc_assert(&r == &a.o, "|= returns its left operand"); vc_assert(is_state(a.o, h, v), "a |= move(b) fills an empty a only"); } moved_or_kept(b, !a.h, "a |= move(b) keeps b engaged"); END })
    ALT({ { a.o |= M<T>::make(x); vc_assert(is_val(a.o, a.h ? a.v : M<T>::lift(x)), "a |= r-value fills an empty a only"); } END })
    ALT({ { a.o |= opt::none; vc_assert(is_state(a.o, a.h, a.v), "a |= none changes nothing"); } END })
    END
}
VC_SPEC(C11_reference) {
    u32 x = vc_nondet_u32(), y = vc_nondet_u32();
    const u32 x0 = x, y0 = y;
    opt::option<u32&> a, b;
    const bool ha = vc_nondet_bool(), hb = vc_nondet_bool();
    if (ha) { a = x; }
    if (hb) { b = y; }
    vc_cover("reached");
    vc_assert((a | b).ptr_or_null() == (ha ? &x : hb ? &y : nullptr), "a | b of reference options");
    vc_assert((a & b).ptr_or_null() == (ha && hb ? &y : nullptr), "a & b of reference options");
    vc_assert((a ^ b).ptr_or_null() == (ha == hb ? nullptr : ha ? &x : &y), "a ^ b of reference options");
    a |= b;
    vc_assert(a.ptr_or_null() == (ha ? &x : hb ? &y : nullptr) && b.ptr_or_null() == (hb ? &y : nullptr), "a |= b of reference options");
    vc_assert(x == x0 && y == y0, "referents are not touched");
}
#define IC(NAME, ...) VC_SPEC(C11_or_##NAME) { or_ops<__VA_ARGS__>(); } VC_SPEC(C11_xor_##NAME) { xor_ops<__VA_ARGS__>(); } VC_SPEC(C11_and_##NAME) { and_ops<__VA_ARGS__, __VA_ARGS__>(); }
#define I1(NAME, ...) IC(NAME, __VA_ARGS__) VC_SPEC(C11_or_assign_##NAME) { or_assign<__VA_ARGS__>(); }
FAM_CONST(IC) FAM_ALL(I1) FAM_OPT(I1)
VC_SPEC(C11_and_int_abs) { and_ops<u32, Abs<1>>(); }
VC_SPEC(C11_and_abst_bool) { and_ops<Abs<1, 2>, bool>(); }
VC_SPEC(C11_and_mo_ptr) { and_ops<Abs<2, 0, true, false>, u32*>(); }
VC_SPEC(C11_and_float_mo) { and_ops<float, Abs<2, 1, true, false>>(); }
