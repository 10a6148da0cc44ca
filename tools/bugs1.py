BUGS = []
def bug(**k): BUGS.append(k)
PRE = '#include <opt/option.hpp>\n#include <cstring>\n#include <cstdint>\n#include <cstdio>\n'
# ---------------------------------------------------------------- values / levels
bug(id='b01_float32_nan_window', property='C04',
 subs=[("0b1'11111111'01111110110100110101111u", "0b1'11111111'01111111111111111111110u")],
 needs='an option<float> engaged with the ordinary default negative quiet NaN (0xFFC00000), as produced by 0.0f/0.0f on x86',
 breaks='the reserved range of float32 runs over the default -qNaN, which is then read as a level of emptiness',
 demo=PRE+r'''
int main() {
    const std::uint32_t qnan = 0xFFC00000u; float f; std::memcpy(&f, &qnan, 4);
    opt::option<opt::option<opt::option<float>>> o{f};
    if (!o.has_value() || !o->has_value() || !(*o)->has_value()) return 1;
    return 0;
}''')
bug(id='b02_unique_ptr_wrap', property='C05',
 subs=[("sentinel_ptr = std::uintptr_t(-1) - 46508", "sentinel_ptr = std::uintptr_t(-1) - 1")],
 needs='three nested options over a unique_ptr, whose innermost option is engaged with a null unique_ptr',
 breaks='level 2 wraps around to the null pointer, so option<option<option<unique_ptr>>>{nullptr} collapses',
 demo=PRE+r'''#include <memory>
int main() {
    using P = std::unique_ptr<int>;
    opt::option<opt::option<opt::option<P>>> o{P{}};
    if (!o.has_value() || !o->has_value() || !(*o)->has_value()) return 1;
    opt::option<opt::option<opt::option<P>>> e{opt::option<opt::option<P>>{opt::option<P>{}}};
    if (!e.has_value() || !e->has_value() || (*e)->has_value()) return 1;
    return 0;
}''')
bug(id='b03_bool_level_signed', property='C05',
 subs=[("        using uint_bool = std::uint_least8_t;", "        using uint_bool = std::int_least8_t;")],
 needs='an option<bool> nested more than 126 levels deep, or max_level-th level read back through option_traits<bool>',
 breaks='levels above 125 are read back sign extended, so set_level/get_level no longer round-trip',
 demo=PRE+r'''
int main() {
    using tr = opt::option_traits<bool>;
    for (std::uintmax_t l = 0; l < tr::max_level; ++l) {
        alignas(bool) unsigned char raw[sizeof(bool)] = {};
        tr::set_level(reinterpret_cast<bool*>(raw), l);
        if (tr::get_level(reinterpret_cast<bool*>(raw)) != l) return 1;
    }
    return 0;
}''')
bug(id='b04_sentinel_start_top', property='C17',
 subs=[("= (std::numeric_limits<underlying>::max)() - std::uintmax_t(sentinel_range_start) + 1;", "= (std::numeric_limits<underlying>::max)() - std::uintmax_t(sentinel_range_start);")],
 needs='an enumeration whose SENTINEL_START is the greatest value of its underlying type',
 breaks='the range [SENTINEL_START, max] loses its last value; a one-value range is not used at all',
 demo=PRE+r'''
enum class E : unsigned char { a, b, SENTINEL_START = 255 };
int main() {
    if (opt::option_traits<E>::max_level != 1) return 1;
    if (sizeof(opt::option<E>) != sizeof(E)) return 1;
    return 0;
}''')
bug(id='b05_pair_tie_unsized', property='C17',
 subs=[("first_traits::max_level > second_traits::max_level", "sizeof(First) > sizeof(Second) && first_traits::max_level > 0")],
 needs='a pair whose first element is larger but reserves fewer values than the second',
 breaks='pair picks the bigger element, not the one with the most reserved values',
 demo=PRE+r'''#include <utility>
#include <string>
int main() {
    using P = std::pair<std::string, bool*>;
    if (opt::option_traits<P>::max_level != opt::option_traits<bool*>::max_level) return 1;
    return 0;
}''')
bug(id='b06_set_level_string_order', property='C06',
 subs=[("""            const std::size_t size = static_cast<std::size_t>(level);
            std::memcpy(reinterpret_cast<std::uint8_t*>(value) + size_offset, &size, sizeof(std::size_t));
#endif""", """            const std::size_t size[2] = { static_cast<std::size_t>(level), 0 };
            std::memcpy(reinterpret_cast<std::uint8_t*>(value) + size_offset, size, sizeof(Elem) == 1 ? sizeof(std::size_t) : sizeof(std::basic_string<Elem, Traits, Allocator>) - 2 * sizeof(Elem));
#endif""")],
 needs='a u16string option laid out directly before another member, and a reset that writes its empty state',
 breaks='emptying an option<u16string>/<wstring> writes past the string object into the neighbouring bytes',
 cxx='g++', flags='-O1 -w',
 demo=PRE+r'''#include <string>
struct S { opt::option<std::u16string> o; unsigned char after[64]; };
int main() {
    S s; std::memset(s.after, 0x5a, sizeof s.after);
    s.o = std::u16string(u"abc");
    std::memset(s.after, 0x5a, sizeof s.after);
    s.o.reset();
    for (unsigned char c : s.after) if (c != 0x5a) return 1;
    return 0;
}''')
# ---------------------------------------------------------------- core
bug(id='b07_const_flag', property='C06',
 subs=[("bool HasTraits = (opt::option_traits<std::remove_cv_t<T>>::max_level > 0)", "bool HasTraits = (opt::option_traits<T>::max_level > 0)")],
 needs='an option of a const-qualified size-optimised type other than the ones whose traits accept const (option<const bool>, option<const std::string>)',
 breaks='option<const bool> is larger than bool',
 demo=PRE+r'''#include <string>
int main() {
    if (sizeof(opt::option<const bool>) != sizeof(bool)) return 1;
    if (sizeof(opt::option<const std::string>) != sizeof(std::string)) return 1;
    return 0;
}''')
bug(id='b08_move_assign_copies', property='C02',
 subs=[("""        option_base(option_base&&) = default;
        constexpr option_base& operator=(option_base&& other) noexcept(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T>) {
            impl::option_assign_from_option(*this, static_cast<option_base&&>(other));
            return *this;
        }
    };
    // If TrivialCopyCtor is false, then always do not enable the trivial copy assignment operator
    template<class T, bool TrivialCopyAssignment>
    struct option_base<T, false, TrivialCopyAssignment, true, false, false>""",
 """        option_base(option_base&&) = default;
        constexpr option_base& operator=(option_base&& other) noexcept(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T>) {
            impl::option_assign_from_option(*this, other);
            return *this;
        }
    };
    // If TrivialCopyCtor is false, then always do not enable the trivial copy assignment operator
    template<class T, bool TrivialCopyAssignment>
    struct option_base<T, false, TrivialCopyAssignment, true, false, false>""")],
 needs='an element type whose only non-trivial special member is its move assignment',
 breaks='move assignment of the option performs a copy assignment of the element',
 demo=PRE+r'''
struct M { int v; int how;
    M(int x) : v(x), how(0) {}
    M(const M&) = default; M(M&&) = default;
    M& operator=(const M&) = default;
    M& operator=(M&& o) noexcept { v = o.v; how = 7; o.v = -1; return *this; } };
int main() {
    opt::option<M> a{M{1}}, b{M{2}};
    a = static_cast<opt::option<M>&&>(b);
    if (a->how != 7 || a->v != 2 || b->v != -1) return 1;
    return 0;
}''')
bug(id='b09_value_assign_reconstruct', property='C03',
 subs=[("} else if constexpr (std::is_scalar_v<T>) {\n            base::construct(static_cast<U&&>(val));", "} else if constexpr (std::is_trivially_copyable_v<T>) {\n            base::construct(static_cast<U&&>(val));")],
 needs='an engaged option over a trivially copyable class which has a non-trivial converting assignment from another type',
 breaks='assigning a value to an engaged option constructs a new element over the live one instead of assigning to it',
 demo=PRE+r'''
struct A { int v; int assigned;
    A() : v(0), assigned(0) {} A(int x) : v(x), assigned(0) {}
    A& operator=(int x) { v = x; assigned = assigned + 1; return *this; } };
int main() {
    opt::option<A> o{A{1}};
    o = 5;
    return o->v == 5 && o->assigned == 1 ? 0 : 1;
}''')
bug(id='b10_conv_assign_reset_alias', property='C01',
 subs=[("""            if (other.has_value()) {
                if (has_value()) {
                    base::value = static_cast<option<U>&&>(other).get();
                    OPTION_VERIFY(has_value(), "After assignment, the value is in an empty state");
                } else {
                    base::construct(static_cast<option<U>&&>(other).get());
                }
            } else {
                reset();
            }""", """            if (other.has_value()) {
                if (has_value()) {
                    base::value = static_cast<option<U>&&>(other).get();
                    OPTION_VERIFY(has_value(), "After assignment, the value is in an empty state");
                } else {
                    base::construct(static_cast<option<U>&&>(other).get());
                }
            } else if (!std::is_trivially_destructible_v<T> || std::is_same_v<T, U>) {
                reset();
            }""")],
 needs='converting move assignment of an empty option<U> rvalue to an engaged option<T> with trivially destructible T',
 breaks='the target stays engaged with its old value after being assigned an empty option of another type',
 demo=PRE+r'''
int main() {
    opt::option<long> a{5L}; opt::option<int> e;
    a = static_cast<opt::option<int>&&>(e);
    if (a.has_value()) return 1;
    return 0;
}''')
bug(id='b11_flag_before_construct', property='C16',
 subs=[("""            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
            has_value_flag = true;""", """            has_value_flag = true;
            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);""", 2)],
 needs='a constructor of the element that throws while an empty option is being filled (emplace, assignment, conversion)',
 breaks='the option claims to hold a value that was never constructed; its destructor then destroys it',
 demo=PRE+r'''
static int dtors = 0;
struct X { int a[2]; explicit X(int i) { if (i < 0) throw i; a[0] = i; } X(const X&) = default; X& operator=(const X&) = default; ~X() { ++dtors; } };
int main() {
    {
        opt::option<X> o;
        try { o.emplace(-1); } catch (int) {}
        if (o.has_value()) return 1;
    }
    return dtors == 0 ? 0 : 1;
}''')
# ---------------------------------------------------------------- access
bug(id='b12_iter_postdec', property='C07',
 subs=[("""            auto tmp{*this};
            --ptr;
            return tmp;""", """            --ptr;
            auto tmp{*this};
            return tmp;""")],
 needs='use of the value returned by it-- (post-decrement) on an option iterator',
 breaks='post-decrement returns the decremented iterator',
 demo=PRE+r'''
int main() {
    opt::option<int> o{3};
    auto it = o.end(); auto old = it--;
    return old == o.end() && it == o.begin() ? 0 : 1;
}''')
bug(id='b13_iter_friend_plus', property='C07',
 subs=[("return option_iterator{it.ptr + offset};", "return option_iterator{it.ptr + (offset < 0 ? -offset : offset)};")],
 needs='a negative offset on the left of the iterator: -1 + end()',
 breaks='-1 + o.end() points two past the element',
 demo=PRE+r'''
int main() {
    opt::option<int> o{3};
    return (-1 + o.end()) == o.begin() ? 0 : 1;
}''')
bug(id='b14_value_rvalue_const', property='C19',
 subs=[("""        if (!self.has_value()) { throw_bad_access(); }
        return *static_cast<Self&&>(self);""", """        if constexpr (std::is_const_v<std::remove_reference_t<Self>> && std::is_rvalue_reference_v<Self&&>) {
            return static_cast<Self&&>(self).get_unchecked();
        } else {
            if (!self.has_value()) { throw_bad_access(); }
            return *static_cast<Self&&>(self);
        }""")],
 needs='value() / value_or_throw() on a const rvalue empty option',
 breaks='checked access on a const rvalue is no longer checked',
 demo=PRE+r'''
int main() {
    const opt::option<int> e;
    try { int x = static_cast<const opt::option<int>&&>(e).value_or_throw(); (void)x; } catch (const opt::bad_access&) { return 0; }
    return 1;
}''')
bug(id='b15_value_or_eager', property='C08',
 subs=[("""        if (has_value()) {
            return static_cast<std::remove_cv_t<T>&&>(get());
        } else {
            return static_cast<std::remove_cv_t<T>>(static_cast<U&&>(default_value));
        }""", """        std::remove_cv_t<T> fallback = static_cast<std::remove_cv_t<T>>(static_cast<U&&>(default_value));
        if (has_value()) {
            return static_cast<std::remove_cv_t<T>&&>(get());
        }
        return fallback;""")],
 needs='value_or on an rvalue engaged option with an rvalue fallback which is inspected afterwards',
 breaks='the fallback is consumed (moved from, converted) although the option holds a value',
 demo=PRE+r'''#include <string>
int main() {
    opt::option<std::string> o{std::string("value, long enough not to be small")};
    std::string fb = "fallback, long enough not to be small either";
    std::string r = static_cast<opt::option<std::string>&&>(o).value_or(static_cast<std::string&&>(fb));
    if (r.substr(0, 5) != "value") return 1;
    return fb.empty() ? 1 : 0;
}''')
bug(id='b16_filter_moves', property='C09',
 subs=[("bool(impl::invoke(static_cast<F&&>(f), self.get()))", "bool(impl::invoke(static_cast<F&&>(f), static_cast<Self&&>(self).get()))")],
 needs='filter on an rvalue option with a predicate taking its argument by value',
 breaks='the predicate is handed an rvalue and may empty the element that is then returned',
 demo=PRE+r'''#include <string>
int main() {
    opt::option<std::string> o{std::string("a string that lives on the heap for sure")};
    auto r = static_cast<opt::option<std::string>&&>(o).filter([](std::string s) { return s.size() > 3; });
    return r.has_value() && r->size() == 40 ? 0 : 1;
}''')
bug(id='b17_map_or_f_copy', property='C09',
 subs=[("""        if (self.has_value()) {
            return impl::invoke(static_cast<F&&>(f), static_cast<Self&&>(self).get());
        }
        return static_cast<U&&>(default_value);""", """        impl::remove_cvref<U> result = static_cast<U&&>(default_value);
        if (self.has_value()) {
            result = impl::invoke(static_cast<F&&>(f), static_cast<Self&&>(self).get());
        }
        return result;""")],
 needs='map_or on an engaged option with an rvalue default that is used afterwards',
 breaks='the default value is moved from although the option holds a value',
 demo=PRE+r'''#include <string>
int main() {
    opt::option<int> o{3};
    std::string d = "default, long enough not to be small at all";
    std::string r = o.map_or(static_cast<std::string&&>(d), [](int) { return std::string("mapped"); });
    return r == "mapped" && !d.empty() ? 0 : 1;
}''')
# ---------------------------------------------------------------- comparisons
bug(id='b18_ge_negated_lt', property='C10',
 subs=[("return right.has_value() ? left >= right.get() : true;", "return right.has_value() ? !(left < right.get()) : true;")],
 needs='a value compared with an engaged option where the two elements are unordered (NaN) or have an unrelated operator<',
 breaks='value >= option answers !(value < element) instead of value >= element',
 demo=PRE+r'''#include <limits>
int main() {
    double n = std::numeric_limits<double>::quiet_NaN();
    opt::option<double> o{1.0};
    return (n >= o) ? 1 : 0;
}''')
bug(id='b19_le_option_mixed', property='C10',
 subs=[("    if (left_has_value && right_has_value) { return left.get() <= right.get(); }", "    if (left_has_value && right_has_value) { return left.get() < right.get() || left.get() == right.get(); }")],
 needs='element types whose <= is not the union of < and ==',
 breaks='option <= option does not use the <= of the elements',
 flags='-O1 -w',
 demo=PRE+r'''
struct K { int v; };
constexpr bool operator<(const K& a, const K& b) { return a.v < b.v; }
constexpr bool operator==(const K& a, const K& b) { return &a == &b; }
constexpr bool operator<=(const K& a, const K& b) { return a.v <= b.v; }
int main() {
    opt::option<K> a{K{1}}, b{K{1}};
    return a <= b ? 0 : 1;
}''')
bug(id='b20_ne_via_flags', property='C10',
 subs=[("    if (left_has_value && right_has_value) { return left.get() != right.get(); }\n    return left_has_value != right_has_value;", "    if (left_has_value && right_has_value) { return left.get() != right.get(); }\n    return left_has_value || !right_has_value;")],
 needs='comparison of two empty options or (empty, engaged) with !=',
 breaks='two empty options compare unequal and empty != engaged is false',
 demo=PRE+r'''
int main() {
    opt::option<int> a; opt::option<long> b; opt::option<long> c{1};
    return !(a != b) && (a != c) && (c != a) ? 0 : 1;
}''')
# ---------------------------------------------------------------- combinators
bug(id='b21_xor_moves_copy', property='C11',
 subs=[("""operator^(opt::option<T>&& left, const opt::option<T>& right) {
    if (left.has_value() && !right.has_value()) {
        return static_cast<opt::option<T>&&>(left);""", """operator^(opt::option<T>&& left, const opt::option<T>& right) {
    if (left.has_value() && !right.has_value()) {
        return left;""")],
 needs='rvalue ^ lvalue with an engaged left operand whose move differs from its copy',
 breaks='the left operand is copied instead of moved',
 demo=PRE+r'''
struct M { int v; M(int x) : v(x) {} M(const M& o) : v(o.v + 100) {} M(M&& o) : v(o.v) { o.v = -1; } M& operator=(const M&) = default; };
int main() {
    opt::option<M> a{M{1}}; const opt::option<M> b;
    int v0 = a->v;
    auto r = static_cast<opt::option<M>&&>(a) ^ b;
    return r.has_value() && r->v == v0 && a->v == -1 ? 0 : 1;
}''')
bug(id='b22_or_assign_none', property='C11',
 subs=[("""    if (left.has_value()) {
        return static_cast<opt::option<U>&&>(right);
    }
    return opt::none;""", """    opt::option<U> result{static_cast<opt::option<U>&&>(right)};
    if (!left.has_value()) {
        result.reset();
    }
    return result;""")],
 needs='empty & rvalue engaged, with the right operand inspected afterwards',
 breaks='left & right consumes the right operand even when left is empty',
 demo=PRE+r'''
struct M { int v; M(int x) : v(x) {} M(const M&) = default; M(M&& o) : v(o.v) { o.v = -1; } M& operator=(const M&) = default; };
int main() {
    opt::option<int> a; opt::option<M> b{M{1}};
    int v0 = b->v;
    auto r = a & static_cast<opt::option<M>&&>(b);
    return !r.has_value() && b->v == v0 ? 0 : 1;
}''')
# ---------------------------------------------------------------- references, lookup, swap, compose ...
bug(id='b23_ref_copy_assign_through', property='C12',
 subs=[("""            if (other.has_value()) {
                base::value = base::ref_to_ptr(other.get());
            } else {
                reset();
            }""", """            if (other.has_value()) {
                if (has_value() && std::is_assignable_v<T, const U&>) {
                    *base::value = other.get();
                } else {
                    base::value = base::ref_to_ptr(other.get());
                }
            } else {
                reset();
            }""")],
 needs='converting copy assignment (Derived& to Base&) between two engaged reference options',
 breaks='assignment writes through the reference instead of rebinding it',
 demo=PRE+r'''
struct B { int v; }; struct D : B {};
int main() {
    B b; b.v = 1; D d; d.v = 2;
    opt::option<B&> x{b}; opt::option<D&> y{d};
    x = y;
    return x.ptr_or_null() == &d && b.v == 1 ? 0 : 1;
}''')
bug(id='b24_at_index_wrap', property='C13',
 subs=[("    if (index >= container.size()) { return opt::option<type>{opt::none}; }", "    if (index > container.size() - 1) { return opt::option<type>{opt::none}; }")],
 needs='at(container, i) on an empty container',
 breaks='size() - 1 wraps around for an empty container, so every index is accepted',
 demo=PRE+r'''#include <string>
int main() {
    std::string s;
    return opt::at(s, 0).has_value() ? 1 : 0;
}''')
bug(id='b25_take_if_move', property='C14',
 subs=[("bool(impl::invoke(static_cast<P&&>(predicate), get()))", "bool(impl::invoke(static_cast<P&&>(predicate), static_cast<T&&>(get())))")],
 needs='take_if with a predicate that takes its argument by value and rejects or accepts it',
 breaks='the predicate receives an rvalue: the element is moved out before it is decided',
 demo=PRE+r'''#include <string>
int main() {
    opt::option<std::string> o{std::string("a string that lives on the heap for sure")};
    auto r = o.take_if([](std::string s) { return s.empty(); });
    return !r.has_value() && o.has_value() && o->size() == 40 ? 0 : 1;
}''')
bug(id='b26_swap_one_sided', property='C14',
 subs=[("""        base::construct(static_cast<U&&>(other.get()));
        other.base::reset();""", """        base::construct(static_cast<U&&>(other.get()));
        if constexpr (!impl::is_trivially_destructible_v<U>) {
            other.base::reset();
        }""")],
 needs='swap of an empty option with an engaged one of a trivially destructible type, engaged on the right',
 breaks='after the swap both options are engaged',
 demo=PRE+r'''
int main() {
    opt::option<long> a; opt::option<long> b{4};
    a.swap(b);
    return a.has_value() && *a == 4 && !b.has_value() ? 0 : 1;
}''')
bug(id='b27_zip_any', property='C15',
 subs=[("""    if ((options.has_value() && ...)) {
        return opt::option{result_tuple{static_cast<Options&&>(options).get()...}};""", """    if ((options.has_value() && ...)) {
        return opt::option{result_tuple{options.get()...}};""")],
 needs='zip of rvalue options of types whose move differs from copy',
 breaks='zip copies the contained values of rvalue options',
 demo=PRE+r'''#include <tuple>
struct M { int v; M(int x) : v(x) {} M(const M& o) : v(o.v + 100) {} M(M&& o) : v(o.v) { o.v = -1; } };
int main() {
    opt::option<M> a{M{1}}; opt::option<int> b{2};
    auto r = opt::zip(static_cast<opt::option<M>&&>(a), b);
    return std::get<0>(*r).v == 1 && a->v == -1 ? 0 : 1;
}''')
bug(id='b28_unzip_forward', property='C15',
 subs=[("return opt::option<type>{static_cast<type>(get<I>(static_cast<Self&&>(self).get()))};", "return opt::option<type>{static_cast<type>(get<(I == 0 ? 0 : I)>(static_cast<Self&&>(self).get()))};"),
       ("opt::option<std::tuple_element_t<Idx, TupleLikeType>>{std::get<Idx>(static_cast<Self&&>(self).get())}...", "opt::option<std::tuple_element_t<Idx, TupleLikeType>>{std::tuple_element_t<Idx, TupleLikeType>(std::get<(std::is_same_v<std::tuple_element_t<Idx, TupleLikeType>, std::tuple_element_t<sizeof...(Idx) - 1 - Idx, TupleLikeType>> && sizeof...(Idx) > 2) ? sizeof...(Idx) - 1 - Idx : Idx>(static_cast<Self&&>(self).get()))}...")],
 needs='unzip of a tuple of at least three elements whose first and last element have the same type',
 breaks='the parts of the same type are handed out in reverse order',
 demo=PRE+r'''#include <tuple>
int main() {
    opt::option<std::tuple<int, char, int>> o{std::make_tuple(1, 'x', 3)};
    auto [a, b, c] = opt::unzip(o);
    return *a == 1 && *b == 'x' && *c == 3 ? 0 : 1;
}''')
bug(id='b29_hash_ref_address', property='C18',
 subs=[("return val.has_value() ? val_hash{}(val.get()) : disengaged_hash;", "return val.has_value() ? val_hash{}(val.get()) ^ (opt::option_traits<std::remove_cv_t<T>>::max_level == 0 ? std::size_t(0) : reinterpret_cast<std::size_t>(&val) >> 63 | std::size_t(sizeof(val) == 4)) : disengaged_hash;")],
 needs='hash of an engaged option over a size-optimised 4 byte type (float, enums)',
 breaks='hash(option<T>{x}) differs from hash(x)',
 demo=PRE+r'''#include <functional>
int main() {
    opt::option<float> o{2.5f};
    return std::hash<opt::option<float>>{}(o) == std::hash<float>{}(2.5f) ? 0 : 1;
}''')
bug(id='b30_option_cast_copy', property='C20',
 subs=[("return static_cast<opt::option<From>&&>(value).map([](From&& x) -> To { return To(static_cast<From&&>(x)); });", "return static_cast<opt::option<From>&&>(value).map([](From&& x) -> To { return To(x); });")],
 needs='option_cast of an rvalue to a type constructed differently from lvalues and rvalues',
 breaks='the element of an rvalue option is copied rather than moved into the cast',
 demo=PRE+r'''
struct F { int v; };
struct To { int v; int how; explicit To(const F& f) : v(f.v), how(1) {} explicit To(F& f) : v(f.v), how(1) {} explicit To(F&& f) : v(f.v), how(2) {} };
int main() {
    auto r = opt::option_cast<To>(opt::option<F>{F{3}});
    return r.has_value() && r->how == 2 && r->v == 3 ? 0 : 1;
}''')
bug(id='b31_as_option_reset', property='C20',
 subs=[("    result.get_unchecked() = value;\n    return result;", "    result.get_unchecked() = value;\n    if (opt::option_traits<T>::get_level(&value) == opt::option_traits<T>::max_level - 1) { result.reset(); }\n    return result;")],
 needs='as_option of a value that carries the last reserved level (a value holding level max_level-1)',
 breaks='as_option rewrites the representation it was given: the deepest reserved value no longer survives',
 demo=PRE+r'''
int main() {
    using tr = opt::option_traits<bool*>;
    bool* p; tr::set_level(&p, tr::max_level - 1);
    auto o = opt::as_option(p);
    if (!o.has_value() || std::memcmp(&o, &p, sizeof p) != 0) return 1;
    return 0;
}''')
bug(id='b32_io_none_in', property='C22',
 subs=[("            istream >> x.none_case;", "            auto none_case = x.none_case;\n            istream >> none_case;\n            if (istream) { x.none_case = none_case; }")],
 needs='reading into an empty option with a fallback from a stream whose extraction fails part way',
 breaks='what the stream wrote into the fallback is dropped when the stream fails: the fallback keeps its old value instead of what >> left in it',
 flags='-O1 -w',
 demo=PRE+r"""#include <sstream>
int main() {
    std::istringstream is("abc");
    opt::option<int> o; int fb = 77;
    is >> opt::io(o, fb);   // a failed extraction stores 0
    return fb == 0 && !o.has_value() ? 0 : 1;
}""")
