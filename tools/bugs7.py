BUGS = []
def bug(**k): BUGS.append(k)
PRE = '#include <opt/option.hpp>\n#include <cstring>\n#include <cstdint>\n#include <cstdio>\n#include <utility>\n#include <type_traits>\n#include <exception>\n#include <cstdlib>\n#include <string>\n#include <vector>\n#include <map>\n#include <set>\n#include <array>\n#include <functional>\n'
bug(id='b80_invoke_member_lvalue', property='C09',
 subs=[("""    constexpr decltype(auto) invoke(T C::* obj, First&& first) {
        return static_cast<First&&>(first).*obj;""",
"""    constexpr decltype(auto) invoke(T C::* obj, First&& first) {
        return (first.*obj);""")],
 needs='map with a pointer to data member on an r-value option whose member counts copies',
 breaks='the function result is an l-value: the member is copied into the result instead of moved',
 demo=PRE+r'''
struct M { int copies = 0; M() = default; M(const M& o) : copies(o.copies + 1) {} M(M&& o) noexcept : copies(o.copies) {} M& operator=(const M&) = default; };
struct S { M m; int x = 0; };
int main() {
    opt::option<S> a{std::in_place};
    int before = a->m.copies;
    bool same = false;
    auto f = [&](auto&& s) { same = std::is_same_v<decltype(s), S&&>; return 1; };
    (void)std::move(a).map(f);
    auto r = std::move(a).and_then([](S&& s) { return opt::option<S>{std::move(s)}; }).map(&S::m);
    return same && r.has_value() && r->copies == before ? 0 : 1;
}''')
bug(id='b81_start_end_one_more', property='C17',
 subs=[("            = std::uintmax_t(sentinel_range_end) - std::uintmax_t(sentinel_range_start) + 1;",
        "            = std::uintmax_t(sentinel_range_end) - std::uintmax_t(sentinel_range_start) + 2;")],
 needs='an enumeration with SENTINEL_START/SENTINEL_END nested one level deeper than the declared range, holding the value after SENTINEL_END',
 breaks='the enumerator after SENTINEL_END is used as a reserved value and confused with emptiness',
 demo=PRE+r'''
enum class E : unsigned char { A, SENTINEL_START = 10, SENTINEL_END = 11, B = 12 };
int main() {
    using O3 = opt::option<opt::option<opt::option<E>>>;
    O3 o{std::in_place, std::in_place, std::in_place, E::B};
    if (!o.has_value() || !o->has_value() || !(*o)->has_value() || ***o != E::B) { return 1; }
    O3 e;
    if (e.has_value()) { return 1; }
    O3 m{std::in_place};
    return m.has_value() && !m->has_value() ? 0 : 1;
}''')
bug(id='b82_hash_avoids_zero', property='C18',
 subs=[("        return val.has_value() ? val_hash{}(val.get()) : disengaged_hash;",
"""        if (!val.has_value()) { return disengaged_hash; }
        const std::size_t h = val_hash{}(val.get());
        return h == disengaged_hash ? ~disengaged_hash : h;""")],
 needs='a value whose std::hash is 0',
 breaks='the option hashes to another value than its element when that hash coincides with the hash of an empty option',
 demo=PRE+r'''
struct Key { unsigned x; bool operator==(const Key& o) const { return x == o.x; } };
template<> struct std::hash<Key> { std::size_t operator()(const Key& k) const noexcept { return k.x * 8u; } };
int main() {
    for (unsigned i = 0; i < 100; ++i) {
        opt::option<Key> o{Key{i}};
        if (std::hash<opt::option<Key>>{}(o) != std::hash<Key>{}(Key{i})) { return 1; }
    }
    return 0;
}''')
bug(id='b83_swap_values_not_storage', property='C12',
 subs=[("            swap(base::value, other_base.value);", "            swap(get(), other.get());")],
 needs='swapping two engaged options of references',
 breaks='the referents are exchanged instead of being rebound',
 demo=PRE+r'''
int main() {
    int x = 1, y = 2;
    opt::option<int&> a{x}, b{y};
    a.swap(b);
    return x == 1 && y == 2 && &*a == &y && &*b == &x ? 0 : 1;
}''')
bug(id='b84_ref_conv_move_keeps', property='C02',
 subs=[("""                base::value = base::ref_to_ptr(static_cast<option<U>&&>(other).get());
            } else {
                reset();
            }""",
"""                base::value = base::ref_to_ptr(static_cast<option<U>&&>(other).get());
            }""")],
 needs='assigning an empty r-value option<Derived&> to an engaged option<Base&>',
 breaks='the target keeps its old referent',
 demo=PRE+r'''
struct B { int i = 1; }; struct D : B { int j = 2; };
int main() {
    D d; B b;
    opt::option<B&> o{b};
    opt::option<D&> e{d};
    o = std::move(e);
    if (&*o != &d) { return 1; }
    o = opt::option<D&>{};
    return !o.has_value() ? 0 : 1;
}''')
bug(id='b85_ne_from_eq', property='C10',
 subs=[("    return left.has_value() ? left.get() != right : true;", "    return left.has_value() ? !(left.get() == right) : true;")],
 needs='an element type whose != is not the negation of == (an unordered value)',
 breaks='option != value does not use the != of the element',
 demo=PRE+r'''
struct Q { int v; };
bool operator==(const Q& a, const Q& b) { return a.v == b.v && a.v >= 0; }
bool operator!=(const Q& a, const Q& b) { return a.v != b.v && a.v >= 0 && b.v >= 0; }
int main() {
    int bad = 0;
    for (int i = -2; i < 3; ++i) for (int j = -2; j < 3; ++j) {
        opt::option<Q> o{Q{i}};
        if ((o != Q{j}) != (Q{i} != Q{j})) { ++bad; }
        if ((Q{j} != o) != (Q{j} != Q{i})) { ++bad; }
    }
    return bad == 0 ? 0 : 1;
}''')
bug(id='b86_double_sign_ignored', property='C04',
 subs=[("""            const std::uint64_t uint = impl::ptr_bit_cast<std::uint64_t>(value);
            return uint - nan_start;""",
"""            const std::uint64_t uint = impl::ptr_bit_cast<std::uint64_t>(value);
            return (uint | (std::uint64_t(1) << 63)) - nan_start;""", 1)],
 needs='a double holding the positive signalling NaN with the payload of a reserved representation',
 breaks='that NaN is reported as an empty option',
 demo=PRE+r'''
int main() {
    int bad = 0;
    opt::option<double> e;
    std::uint64_t bits;
    std::memcpy(&bits, &e, sizeof(bits));
    for (std::uint64_t flip = 0; flip < 64; ++flip) {
        const std::uint64_t b = bits ^ (std::uint64_t(1) << flip);
        if (flip < 9) { continue; }                                 // could be another reserved level
        opt::option<double> o{1.0};
        std::memcpy(static_cast<void*>(o.ptr_or_null()), &b, sizeof(b));
        if (!o.has_value()) { ++bad; }
    }
    return bad == 0 ? 0 : 1;
}''')
bug(id='b91_make_option_ilist_copies', property='C20',
 subs=[("    return option<T>{std::in_place, ilist, static_cast<Args&&>(args)...};", "    return option<T>{std::in_place, ilist, args...};")],
 needs='make_option with an initializer list and a further r-value argument',
 breaks='the further argument is copied instead of moved',
 demo=PRE+r'''
struct A { int copies = 0; A() = default; A(const A& o) : copies(o.copies + 1) {} A(A&& o) noexcept : copies(o.copies) {} };
struct T { int n; int copies; T(std::initializer_list<int> l, A a) : n(int(l.size())), copies(a.copies) {} };
int main() {
    A a;
    auto o = opt::make_option<T>({1, 2, 3}, std::move(a));
    return o.has_value() && o->n == 3 && o->copies == 0 ? 0 : 1;
}''')
bug(id='b92_take_trivial_no_reset', property='C14',
 subs=[], needs='x', breaks='x', demo=PRE)
bug(id='b93_zip_with_lvalues', property='C09',
 subs=[("            return opt::option<fn_result>{impl::invoke(static_cast<Fn&&>(fn), static_cast<Options&&>(options).get()...)};",
        "            return opt::option<fn_result>{impl::invoke(static_cast<Fn&&>(fn), options.get()...)};")],
 needs='zip_with on r-value options with a function that distinguishes the value category',
 breaks='the function receives l-values: elements are copied',
 demo=PRE+r'''
struct M { int copies = 0; M() = default; M(const M& o) : copies(o.copies + 1) {} M(M&& o) noexcept : copies(o.copies) {} };
struct F { int operator()(M&, int&) { return 1; } int operator()(M&&, int&&) { return 2; } };
int main() {
    opt::option<M> a{std::in_place}; opt::option<int> b{1};
    auto r = opt::zip_with(F{}, std::move(a), std::move(b));
    auto q = opt::zip_with(F{}, a, b);
    return *r == 2 && *q == 1 ? 0 : 1;
}''')
bug(id='b95_move_ctor_revived', property='C21',
 subs=[("""    template<class Tag, bool MoveAssignment>
    struct enable_copy_move<Tag, true, true, false, MoveAssignment, false> {
        enable_copy_move() = default;
        enable_copy_move(const enable_copy_move&) = default;
        enable_copy_move& operator=(const enable_copy_move&) = default;
        enable_copy_move(enable_copy_move&&) = delete;""",
"""    template<class Tag, bool MoveAssignment>
    struct enable_copy_move<Tag, true, true, false, MoveAssignment, false> {
        enable_copy_move() = default;
        enable_copy_move(const enable_copy_move&) = default;
        enable_copy_move& operator=(const enable_copy_move&) = default;
        enable_copy_move(enable_copy_move&&) = default;""")],
 needs='an element that is copyable but has a deleted move constructor',
 breaks='the option claims to be move constructible though its element is not',
 demo=PRE+r'''
struct A { A() = default; A(const A&) {} A(A&&) = delete; A& operator=(const A&) { return *this; } A& operator=(A&&) = delete; };
int main() {
    static_assert(std::is_copy_constructible_v<opt::option<A>>);
    return std::is_move_constructible_v<opt::option<A>> == std::is_move_constructible_v<A> ? 0 : 1;
}''')
bug(id='b96_value_or_throw_const_rvalue', property='C07',
 subs=[("    [[nodiscard]] constexpr const T&& value() const&& OPTION_LIFETIMEBOUND { return static_cast<const T&&>(value_or_throw()); }",
        "    [[nodiscard]] constexpr const T value() const&& OPTION_LIFETIMEBOUND { return static_cast<const T&&>(value_or_throw()); }")],
 needs='value() on a const r-value option', breaks='value() returns a copy, not the contained object',
 demo=PRE+r'''
int main() {
    const opt::option<int> a{1};
    return std::is_same_v<decltype(std::move(a).value()), const int&&> ? 0 : 1;
}''')
bug(id='b97_lookup_prvalue', property='C13',
 subs=[("    auto it = associative_container.find(static_cast<K&&>(key));\n    if constexpr",
        "    auto it = associative_container.lower_bound(key);\n    if (it != associative_container.end() && associative_container.key_comp()(key, impl::lookup_key(*it))) { it = associative_container.end(); }\n    if constexpr")],
 needs='x', breaks='x', demo=PRE)
bug(id='b98_unzip_const_rvalue', property='C15',
 subs=[("        if (self.has_value()) {\n            return tuple_like_of_options{\n                opt::option<std::tuple_element_t<Idx, TupleLikeType>>{std::get<Idx>(static_cast<Self&&>(self).get())}...\n            };",
        "        if (self.has_value()) {\n            auto&& parts = static_cast<Self&&>(self).get();\n            return tuple_like_of_options{\n                opt::option<std::tuple_element_t<Idx, TupleLikeType>>{std::get<Idx>(std::move(parts))}...\n            };")],
 needs='unzipping an l-value option whose components are changed by a move',
 breaks='the components of the l-value input are moved from',
 demo=PRE+r'''
#include <tuple>
int main() {
    opt::option<std::pair<std::string, int>> a{std::in_place, std::string(50, 'x'), 1};
    auto [p, q] = opt::unzip(a);
    return a->first == std::string(50, 'x') && p.has_value() && q.has_value() && *p == a->first && *q == 1 ? 0 : 1;
}''')
bug(id='b99_try_emplace_aggregate', property='C01',
 subs=[("""        if (!has_value()) {
            base::construct(static_cast<Args&&>(args)...);
        }
        return *(*this);""",
"""        T tmp = [&]() -> T { if constexpr (std::is_aggregate_v<T>) { return T{static_cast<Args&&>(args)...}; } else { return T(static_cast<Args&&>(args)...); } }();
        if (!has_value()) {
            base::construct(static_cast<T&&>(tmp));
        }
        return *(*this);""")],
 needs='x', breaks='x', demo=PRE)
bug(id='b88_vector_end_only', property='C06', subs=[], needs='x', breaks='x', demo=PRE)
BUGS = [b for b in BUGS if b['needs'] != 'x']
