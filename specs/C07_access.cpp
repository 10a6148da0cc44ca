// C07: accessors and iterators expose the contained object itself
#include "abs.hpp"

template<class A, class B> inline constexpr bool same = std::is_same_v<A, B>;

template<class T>
void access_engaged() {
    using O = opt::option<T>;
    Arb<T> s;
    vc_assume(s.h);
    vc_cover("reached");
    O& o = s.o;
    const O& c = s.o;
    T* const p = o.ptr_or_null();
    vc_assert(p != nullptr, "ptr_or_null of an engaged option is not null");
    vc_assert(reinterpret_cast<const unsigned char*>(p) >= s.buf && reinterpret_cast<const unsigned char*>(p) + sizeof(T) <= s.buf + sizeof(O), "the contained object lies within the option");
    vc_assert(same<decltype(o.get()), T&> && same<decltype(c.get()), const T&> && same<decltype(std::move(o).get()), T&&> && same<decltype(std::move(c).get()), const T&&>, "value category and constness are preserved");
    vc_assert(same<decltype(*o), T&> && same<decltype(*c), const T&> && same<decltype(*std::move(o)), T&&> && same<decltype(*std::move(c)), const T&&>, "value category and constness are preserved");
    vc_assert(same<decltype(o.value()), T&> && same<decltype(c.value()), const T&> && same<decltype(std::move(o).value()), T&&> && same<decltype(std::move(c).value()), const T&&>, "value category and constness are preserved");
    vc_assert(same<decltype(o.value_or_throw()), T&> && same<decltype(c.value_or_throw()), const T&> && same<decltype(std::move(o).value_or_throw()), T&&> && same<decltype(std::move(c).value_or_throw()), const T&&>, "value category and constness are preserved");
    vc_assert(same<decltype(o.get_unchecked()), T&> && same<decltype(c.get_unchecked()), const T&> && same<decltype(std::move(o).get_unchecked()), T&&> && same<decltype(std::move(c).get_unchecked()), const T&&>, "value category and constness are preserved");
    vc_assert(same<decltype(o.operator->()), T*> && same<decltype(c.operator->()), const T*> && same<decltype(o.ptr_or_null()), T*> && same<decltype(c.ptr_or_null()), const T*>, "value category and constness are preserved");
    vc_assert(same<decltype(*o.begin()), T&> && same<decltype(*c.begin()), const T&> && same<decltype(*o.end()), T&> && same<decltype(*c.end()), const T&>, "value category and constness are preserved");
    vc_snap(s.buf, sizeof(O), 1);
#define ALIAS(E, L) { auto&& r_ = (E); vc_assert(std::addressof(r_) == p, L " denotes the contained object"); }
    ALIAS(o.get(), "get() &") ALIAS(c.get(), "get() const&") ALIAS(std::move(o).get(), "get() &&") ALIAS(std::move(c).get(), "get() const&&")
    ALIAS(*o, "operator* &") ALIAS(*c, "operator* const&") ALIAS(*std::move(o), "operator* &&") ALIAS(*std::move(c), "operator* const&&")
    ALIAS(o.value(), "value() &") ALIAS(c.value(), "value() const&") ALIAS(std::move(o).value(), "value() &&") ALIAS(std::move(c).value(), "value() const&&")
    ALIAS(o.value_or_throw(), "value_or_throw() &") ALIAS(c.value_or_throw(), "value_or_throw() const&")
    ALIAS(std::move(o).value_or_throw(), "value_or_throw() &&") ALIAS(std::move(c).value_or_throw(), "value_or_throw() const&&")
    ALIAS(o.get_unchecked(), "get_unchecked() &") ALIAS(c.get_unchecked(), "get_unchecked() const&")
    ALIAS(std::move(o).get_unchecked(), "get_unchecked() &&") ALIAS(std::move(c).get_unchecked(), "get_unchecked() const&&")
    vc_assert(o.operator->() == p, "operator-> points to the contained object");
    vc_assert(c.operator->() == p, "operator-> const points to the contained object");
    vc_assert(c.ptr_or_null() == p, "ptr_or_null const points to the contained object");
    vc_assert(std::addressof(*o.begin()) == p && std::addressof(*c.begin()) == p, "begin() denotes the contained object");
    u32 n = 0;
    for (T& t : o) { ++n; vc_assert(std::addressof(t) == p, "iteration visits the contained object"); }
    for (const T& t : c) { ++n; vc_assert(std::addressof(t) == p, "const iteration visits the contained object"); }
    vc_assert(n == 2, "iteration visits exactly one object");
    vc_assert(vc_same(s.buf, sizeof(O), 1), "access does not change the option");
    vc_assert(is_val(o, s.v), "access keeps the value");
    s.destroy();
}
template<class T>
void access_empty() {
    using O = opt::option<T>;
    Arb<T> s;
    vc_assume(!s.h);
    vc_cover("reached");
    O& o = s.o;
    const O& c = s.o;
    vc_snap(s.buf, sizeof(O), 1);
    vc_assert(o.ptr_or_null() == nullptr && c.ptr_or_null() == nullptr, "ptr_or_null of an empty option is null");
    vc_assert(o.begin() == o.end() && c.begin() == c.end() && !(o.begin() != o.end()), "the iterator range of an empty option is empty");
    vc_assert(o.end() - o.begin() == 0 && c.end() - c.begin() == 0, "the distance of an empty range is zero");
    for (T& t : o) { (void)t; vc_assert(false, "iteration over an empty option visits nothing"); }
    for (const T& t : c) { (void)t; vc_assert(false, "iteration over an empty option visits nothing"); }
#define THROWS(E, L)                                                                                                    \
    {                                                                                                                   \
        bool t_ = false;                                                                                                \
        try { (void)(E); vc_assert(false, L " on an empty option does not return"); }                                  \
        catch (const opt::bad_access& e) { t_ = true; (void)e; }                                                        \
        catch (...) { vc_assert(false, L " on an empty option throws opt::bad_access"); }                              \
        vc_assert(t_, L " on an empty option throws");                                                                  \
    }
    THROWS(o.value(), "value() &") THROWS(c.value(), "value() const&") THROWS(std::move(o).value(), "value() &&") THROWS(std::move(c).value(), "value() const&&")
    THROWS(o.value_or_throw(), "value_or_throw() &") THROWS(c.value_or_throw(), "value_or_throw() const&")
    THROWS(std::move(o).value_or_throw(), "value_or_throw() &&") THROWS(std::move(c).value_or_throw(), "value_or_throw() const&&")
    vc_assert(vc_same(s.buf, sizeof(O), 1), "access to an empty option leaves it unchanged");
    vc_assert(!o.has_value(), "still empty");
    s.destroy();
}
// writes through any accessor are seen by all others
template<class T>
void writes() {
    using O = opt::option<T>;
    Arb<T> s;
    vc_assume(s.h);
    vc_cover("reached");
    O& o = s.o;
    const u32 x = vc_nondet_u32();
    const u64 e = M<T>::lift(x);
#define WR(E, L) ALT({ (E) = M<T>::make(x); vc_assert(is_val(o, e) && M<T>::val(*o) == e && M<T>::val(o.value()) == e && M<T>::val(*o.begin()) == e && M<T>::val(*o.ptr_or_null()) == e && M<T>::val(o.get()) == e && M<T>::val(*o.operator->()) == e && M<T>::val(o.value_or_throw()) == e, "a write through " L " is seen by all accessors"); s.destroy(); })
    WR(o.get(), "get()") WR(*o, "operator*") WR(*o.operator->(), "operator->") WR(o.get_unchecked(), "get_unchecked()") WR(o.value(), "value()")
    WR(o.value_or_throw(), "value_or_throw()") WR(*o.begin(), "begin()") WR(*o.ptr_or_null(), "ptr_or_null()") WR(o.begin()[0], "begin()[0]") WR(*o.begin().operator->(), "iterator ->")
    s.destroy();
}
// iterator arithmetic is that of a pointer into a one-element range
template<class T>
void iterators() {
    using O = opt::option<T>;
    Arb<T> s;
    vc_assume(s.h);
    vc_cover("reached");
    O& o = s.o;
    const O& c = s.o;
    T* const p = o.ptr_or_null();
    const auto b = o.begin(), e = o.end();
    vc_assert(e - b == 1 && b - e == -1, "distance of an engaged range is one");
    vc_assert(b != e && !(b == e) && b < e && b <= e && e > b && e >= b && !(b > e) && !(e < b) && !(b >= e) && !(e <= b), "begin precedes end");
    vc_assert(b == b && b <= b && b >= b && !(b < b) && !(b > b) && !(b != b), "an iterator equals itself");
    auto i = b;
    vc_assert(++i == e, "pre-increment of begin is end");
    vc_assert(--i == b, "pre-decrement of end is begin");
    vc_assert(i++ == b && i == e, "post-increment returns the old position");
    vc_assert(i-- == e && i == b, "post-decrement returns the old position");
    vc_assert(b + 1 == e && 1 + b == e && e - 1 == b && b + 0 == b, "iterator + n and - n");
    i += 1;
    vc_assert(i == e, "+= moves forward");
    i -= 1;
    vc_assert(i == b, "-= moves backward");
    vc_assert(std::addressof(b[0]) == p && std::addressof(*b) == p && b.operator->() == p && std::addressof(e[-1]) == p, "dereference denotes the contained object");
    typename O::const_iterator k = b;
    vc_assert(k == c.begin() && std::addressof(*k) == p, "conversion to const_iterator keeps the position");
    vc_assert(c.end() - c.begin() == 1 && c.begin() + 1 == c.end(), "const iterators");
    vc_assert(std::addressof(*std::begin(o)) == p && std::end(o) == e, "std::begin/std::end");
    typename O::iterator z, z2;
    vc_assert(z == z2 && !(z != z2), "value-initialised iterators are equal");
    vc_assert(is_val(o, s.v), "iterating keeps the value");
    s.destroy();
}
// the iterator contract at every position of the range, for every offset that stays within it
template<class T, class O>
void iterator_positions(O& o) {
    const auto b = o.begin();
    using It = std::decay_t<decltype(b)>;
    const auto* const p = o.ptr_or_null();
    const bool i = vc_nondet_bool(), j = vc_nondet_bool();
    const std::ptrdiff_t n = std::ptrdiff_t(j) - std::ptrdiff_t(i);
    const It x = i ? o.end() : o.begin(), y = j ? o.end() : o.begin();
    static_assert(std::is_same_v<decltype(x + n), It> && std::is_same_v<decltype(x - y), std::ptrdiff_t>);
    vc_assert(y - x == n, "the distance of two iterators is the difference of their positions");
    vc_assert(x + n == y, "iterator + n is the iterator n positions on");
    vc_assert(n + x == y, "n + iterator is the iterator n positions on");
    vc_assert(x - (-n) == y, "iterator - n is the iterator n positions back");
    { It z = x; It& r = (z += n); vc_assert(z == y && &r == &z, "+= n moves n positions and returns the iterator"); }
    { It z = x; It& r = (z -= -n); vc_assert(z == y && &r == &z, "-= n moves n positions back and returns the iterator"); }
    vc_assert(std::addressof(x[-std::ptrdiff_t(i)]) == p, "iterator[n] is the element n positions on");
    vc_assert((x == y) == (i == j) && (x != y) == (i != j), "iterators are equal iff they are at the same position");
    vc_assert((x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "iterators are ordered by position");
    if (!i) {
        vc_assert(std::addressof(*x) == p && x.operator->() == p, "dereference denotes the contained object");
        { It z = x; It& r = ++z; vc_assert(z == o.end() && &r == &z, "pre-increment"); }
        { It z = x; const It r = z++; vc_assert(z == o.end() && r == x, "post-increment returns the old position"); }
    } else {
        { It z = x; It& r = --z; vc_assert(z == b && &r == &z, "pre-decrement"); }
        { It z = x; const It r = z--; vc_assert(z == b && r == x, "post-decrement returns the old position"); }
    }
    It q{};
    vc_assert(q + 0 == q && 0 + q == q && q - 0 == q && q - q == 0 && q == It{} && q <= It{} && !(q < It{}), "value-initialised iterators form an empty range");
}
template<class T>
void iterators2() {
    Arb<T> s;
    vc_assume(s.h);
    vc_cover("reached");
    ALT({ iterator_positions<T>(s.o); vc_assert(is_val(s.o, s.v), "iterating keeps the value"); s.destroy(); })
    iterator_positions<T>(std::as_const(s.o));
    vc_assert(is_val(s.o, s.v), "iterating keeps the value");
    s.destroy();
}
template<class T>
void iterators_empty() {
    Arb<T> s;
    vc_assume(!s.h);
    vc_cover("reached");
    const auto& c = s.o;
    const auto b = s.o.begin(), e = s.o.end();
    const auto cb = c.begin(), ce = c.end();
    vc_assert(b == e && cb == ce && e - b == 0 && ce - cb == 0 && !(b != e) && !(b < e) && !(e < b) && b <= e && b >= e && !(b > e), "the iterator range of an empty option is empty");
    vc_assert(b + 0 == e && 0 + b == e && b - 0 == e, "an empty range has one position");
    const typename opt::option<T>::const_iterator k = b;
    vc_assert(k == cb, "conversion to const_iterator keeps the position");
    vc_assert(!s.o.has_value(), "still empty");
    s.destroy();
}
struct Has { u32 a; u32 b; u32 f() const { return a ^ b; } };
VC_SPEC(C07_arrow_member) {
    Has h{vc_nondet_u32(), vc_nondet_u32()};
    vc_cover("reached");
    opt::option<Has> o(h);
    const auto& c = o;
    vc_assert(o->a == h.a && o->b == h.b && c->f() == (h.a ^ h.b), "operator-> reaches the members");
    o->a = 7;
    vc_assert(c->a == 7 && c->b == h.b && (*o).a == 7, "a write through operator-> is seen");
}
VC_SPEC(C07_const_element) {
    const u32 x = vc_nondet_u32();
    opt::option<const u32> o(x);
    vc_cover("reached");
    vc_assert(same<decltype(o.get()), const u32&> && same<decltype(*o), const u32&> && same<decltype(o.ptr_or_null()), const u32*> && same<decltype(*o.begin()), const u32&>, "value category and constness are preserved");
    vc_assert(*o == x && o.get() == x && o.value() == x && *o.ptr_or_null() == x && *o.begin() == x, "option<const T> reads its value");
    vc_assert(&*o == &o.get() && &*o == o.ptr_or_null() && &*o == &*o.begin(), "option<const T> accessors agree");
}
VC_SPEC(C07_what) {
    vc_cover("reached");
    opt::option<u32> o;
    try { (void)o.value(); }
    catch (const std::exception& e) { vc_assert(e.what() != nullptr && e.what()[0] != 0, "bad_access is a std::exception with a message"); return; }
    vc_assert(false, "value() on an empty option throws");
}
// reference options: every accessor denotes the referent
template<class T>
void reference_access() {
    T obj = M<std::remove_cv_t<T>>::make(vc_nondet_u32());
    opt::option<T&> o;
    const bool h = vc_nondet_bool();
    if (h) { o = obj; }
    const opt::option<T&>& c = o;
    vc_cover("reached");
    T* const p = h ? std::addressof(obj) : nullptr;
    vc_assert(o.ptr_or_null() == p && c.ptr_or_null() == p, "ptr_or_null is the address of the referent or null");
    vc_assert((o.begin() == o.end()) == !h && (c.begin() == c.end()) == !h && o.end() - o.begin() == (h ? 1 : 0), "the iterator range is empty exactly when the option is");
    u32 n = 0;
    for (T& t : o) { ++n; vc_assert(std::addressof(t) == p, "iteration visits the referent"); }
    for (T& t : c) { ++n; vc_assert(std::addressof(t) == p, "iteration visits the referent"); }
    vc_assert(n == (h ? 2u : 0u), "iteration visits exactly the referent");
    static_assert(same<decltype(o.get()), T&> && same<decltype(c.get()), T&> && same<decltype(std::move(o).get()), T&> && same<decltype(*c), T&> && same<decltype(c.value()), T&> && same<decltype(o.operator->()), T*>);
    if (h) {
        ALIAS(o.get(), "get() &") ALIAS(c.get(), "get() const&") ALIAS(std::move(o).get(), "get() &&") ALIAS(std::move(c).get(), "get() const&&")
        ALIAS(*o, "operator* &") ALIAS(*c, "operator* const&") ALIAS(*std::move(o), "operator* &&") ALIAS(*std::move(c), "operator* const&&")
        ALIAS(o.value(), "value() &") ALIAS(c.value(), "value() const&") ALIAS(std::move(o).value(), "value() &&") ALIAS(std::move(c).value(), "value() const&&")
        ALIAS(o.value_or_throw(), "value_or_throw() &") ALIAS(c.value_or_throw(), "value_or_throw() const&")
        ALIAS(std::move(o).value_or_throw(), "value_or_throw() &&") ALIAS(std::move(c).value_or_throw(), "value_or_throw() const&&")
        ALIAS(o.get_unchecked(), "get_unchecked() &") ALIAS(c.get_unchecked(), "get_unchecked() const&")
        vc_assert(o.operator->() == p && c.operator->() == p, "operator-> points to the referent");
    } else {
        THROWS(o.value(), "value() &") THROWS(c.value(), "value() const&") THROWS(std::move(o).value(), "value() &&") THROWS(std::move(c).value(), "value() const&&")
        THROWS(o.value_or_throw(), "value_or_throw() &") THROWS(c.value_or_throw(), "value_or_throw() const&")
        THROWS(std::move(o).value_or_throw(), "value_or_throw() &&") THROWS(std::move(c).value_or_throw(), "value_or_throw() const&&")
    }
    vc_assert(o.has_value() == h && o.ptr_or_null() == p, "access does not change a reference option");
}
VC_SPEC(C07_ref_int) { reference_access<u32>(); }
VC_SPEC(C07_ref_const_int) { reference_access<const u32>(); }
VC_SPEC(C07_ref_abs) { reference_access<Abs<1>>(); }
VC_SPEC(C07_ref_const_abs) { reference_access<const Abs<1>>(); }
#define INSTC(NAME, ...)                                                   \
    VC_SPEC(C07_engaged_##NAME) { access_engaged<__VA_ARGS__>(); }         \
    VC_SPEC(C07_empty_##NAME) { access_empty<__VA_ARGS__>(); }             \
    VC_SPEC(C07_iterators_##NAME) { iterators<__VA_ARGS__>(); }            \
    VC_SPEC(C07_positions_##NAME) { iterators2<__VA_ARGS__>(); }           \
    VC_SPEC(C07_itempty_##NAME) { iterators_empty<__VA_ARGS__>(); }
#define INST(NAME, ...) INSTC(NAME, __VA_ARGS__) VC_SPEC(C07_writes_##NAME) { writes<__VA_ARGS__>(); }
FAM_CONST(INSTC) FAM_CONST_MO(INSTC) FAM_ALL(INST) FAM_OPT(INST)
