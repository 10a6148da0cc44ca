BUGS = []
def bug(**k): BUGS.append(k)
PRE = '#include <opt/option.hpp>\n#include <cstring>\n#include <cstdint>\n#include <cstdio>\n#include <utility>\n#include <type_traits>\n#include <cstdlib>\n#include <string>\n#include <vector>\n#include <initializer_list>\n#include <array>\n#include <complex>\n'

bug(id='b102_string_size_byte', property='C04',
 subs=[("""            const void* const data = nullptr;
            std::memcpy(reinterpret_cast<std::uint8_t*>(value) + data_offset, &data, sizeof(void*));
            const std::size_t size = static_cast<std::size_t>(level);
            std::memcpy(reinterpret_cast<std::uint8_t*>(value) + size_offset, &size, sizeof(std::size_t));""",
"""            const void* const data = nullptr;
            std::memcpy(reinterpret_cast<std::uint8_t*>(value) + data_offset, &data, sizeof(void*));
            const std::uint8_t size = static_cast<std::uint8_t>(level);
            std::memcpy(reinterpret_cast<std::uint8_t*>(value) + size_offset, &size, sizeof(size));""")],
 needs='reset of an option<string> that held a string of 256 characters or more',
 breaks='the upper bytes of the old size survive: the option still reports a value after reset()',
 demo=PRE+r'''
int main() {
    alignas(opt::option<std::string>) unsigned char mem[sizeof(opt::option<std::string>)];
    auto* o = new (mem) opt::option<std::string>(std::string(300, 'x'));
    o->reset();
    return o->has_value() ? 1 : 0;
}''')
bug(id='b103_swap_qualified', property='C14',
 subs=[("            swap(base::value, other_base.value);", "            if constexpr (std::is_same_v<T, U> && std::is_class_v<T> && std::is_move_constructible_v<T> && std::is_move_assignable_v<T>) { std::remove_const_t<T> tmp(static_cast<T&&>(base::value)); base::value = static_cast<T&&>(other_base.value); other_base.value = static_cast<T&&>(tmp); } else { swap(base::value, other_base.value); }")],
 needs='an element type with its own swap, whose move assignment does not preserve the whole state',
 breaks='the element type\'s own swap is not used: part of the values stays behind',
 demo=PRE+r'''
namespace n {
struct slot { int home; int v; slot(int h, int x) : home(h), v(x) {} slot(slot&& o) noexcept : home(o.home), v(o.v) {} slot& operator=(slot&& o) noexcept { v = o.v; return *this; } };
inline void swap(slot& a, slot& b) noexcept { int t = a.v; a.v = b.v; b.v = t; t = a.home; a.home = b.home; b.home = t; }
}
int main() {
    opt::option<n::slot> a{std::in_place, 1, 10}, b{std::in_place, 2, 20};
    a.swap(b);
    return a->v == 20 && b->v == 10 && a->home == 2 && b->home == 1 ? 0 : 1;
}''')



bug(id='b107_bare_polymorphic', property='C06',
 subs=[("        if constexpr (std::is_polymorphic_v<T> && sizeof(T) >= sizeof(std::uintptr_t)) {", "        if constexpr (std::is_polymorphic_v<T> && sizeof(T) > sizeof(std::uintptr_t)) {")],
 needs='a polymorphic class without data members',
 breaks='option of such a class carries a flag and is larger than the class',
 demo=PRE+r'''
struct P { virtual int f() const { return 1; } };
int main() { return sizeof(opt::option<P>) == sizeof(P) ? 0 : 1; }''')
bug(id='b108_assign_for_construct', property='C03',
 subs=[("        if constexpr (impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>) {\n            if constexpr (std::is_aggregate_v<T>) {",
        "        if constexpr (impl::is_trivially_move_assignable_v<T>) {\n            if constexpr (std::is_aggregate_v<T>) {")],
 stds='17',
 needs='C++17, a type with trivial assignment but its own constructor and destructor',
 breaks='the object is assigned from a temporary instead of constructed: the destructor runs once more than the constructors',
 demo=PRE+r'''
static int live = 0;
struct T { int v; T(int x) : v(x) { ++live; } T(const T& o) : v(o.v) { ++live; } T& operator=(const T&) = default; ~T() { --live; } };
int main() {
    { opt::option<T> a; a.emplace(3); if (live != 1) { return 1; } a.reset(); if (live != 0) { return 1; } a = T{4}; if (live != 1) { return 1; } }
    return live == 0 ? 0 : 1;
}''')
for k, nth in (('b109_in_place_braces_tf', 1), ('b109_in_place_braces_nf', 2), ('b109_in_place_braces_tt', 3), ('b109_in_place_braces_nt', 4)):
    ty = {'tf': 'struct T { int n; T(int a, int) : n(a) {} T(std::initializer_list<int> l) : n(-int(l.size())) {} };',
          'nf': 'struct T { int n; T(int a, int) : n(a) {} T(std::initializer_list<int> l) : n(-int(l.size())) {} ~T() {} };',
          'tt': 'struct T { virtual int f() const { return 1; } int n; T(int a, int) : n(a) {} T(std::initializer_list<int> l) : n(-int(l.size())) {} };',
          'nt': 'struct T { virtual int f() const { return 1; } int n; T(int a, int) : n(a) {} T(std::initializer_list<int> l) : n(-int(l.size())) {} ~T() {} };'}[k[-2:]]
    bug(id=k, property='C01',
     subs=[("            : value(static_cast<Args&&>(args)...)", "            : value{static_cast<Args&&>(args)...}", nth)],
     needs='in-place construction of a type with an initializer-list constructor that also takes the same arguments in parentheses',
     breaks='the initializer-list constructor is selected instead of the one the arguments name',
     demo=PRE+ty+r'''
int main() { opt::option<T> a{std::in_place, 7, 8}; return a->n == 7 ? 0 : 1; }''')
for k, nth in (('b110_map_braces_tf', 1), ('b110_map_braces_nf', 2)):
    ty = {'tf': 'struct T { int n; T(int a) : n(a) {} T(const T&) = default; T(std::initializer_list<T> l) : n(-int(l.size())) {} };',
          'nf': 'struct T { int n; T(int a) : n(a) {} T(const T&) = default; T(std::initializer_list<T> l) : n(-int(l.size())) {} ~T() {} };'}[k[-2:]]
    bug(id=k, property='C09',
     subs=[("            : value(impl::invoke(static_cast<F&&>(f), static_cast<Arg&&>(arg)))", "            : value{impl::invoke(static_cast<F&&>(f), static_cast<Arg&&>(arg))}", nth)],
     needs='map whose function returns a type with a constructor from a list of itself (a JSON-like type)',
     breaks='the result is wrapped in a one-element list',
     demo=PRE+ty+r'''
int main() { opt::option<int> a{7}; auto r = a.map([](int x) { return T(x); }); return r->n == 7 ? 0 : 1; }''')
bug(id='b111_padding_max_level', property='C17',
 subs=[("        static constexpr std::uintmax_t max_level = std::uintmax_t(member_type(~member_type(0)));", "        static constexpr std::uintmax_t max_level = std::uintmax_t(member_type(~member_type(0))) + 1;")],
 needs='nesting to the last level of a one-byte PADDING member',
 breaks='the last level wraps around to PADDING == 0, an ordinary value',
 demo=PRE+r'''
struct A { int x; std::uint8_t PADDING{}; };
int main() {
    using tr = opt::option_traits<A>;
    A a{};
    for (std::uintmax_t l = 0; l < tr::max_level; ++l) { tr::set_level(&a, l); if (a.PADDING == 0 || tr::get_level(&a) != l) { return 1; } }
    return 0;
}''')
bug(id='b112_sentinel_start_signed', property='C17',
 subs=[("            = (std::numeric_limits<underlying>::max)() - std::uintmax_t(sentinel_range_start) + 1;", "            = std::uintmax_t(std::make_unsigned_t<underlying>(-1)) - std::uintmax_t(sentinel_range_start) + 1;")],
 needs='SENTINEL_START in an enumeration with a signed underlying type, nested past the largest value',
 breaks='levels wrap around into the negative enumerators',
 demo=PRE+r'''
enum class E : signed char { A = -128, B = 0, SENTINEL_START = 120 };
int main() {
    using tr = opt::option_traits<E>;
    E a{};
    for (std::uintmax_t l = 0; l < tr::max_level; ++l) { tr::set_level(&a, l); if (int(a) < 120) { return 1; } }
    return tr::max_level == 8 ? 0 : 1;
}''')

bug(id='b114_bool_max_level', property='C05',
 subs=[("    struct internal_option_traits<bool, option_strategy::bool_> {\n    private:\n        using uint_bool = std::uint_least8_t;\n    public:\n        static constexpr std::uintmax_t max_level = 254;",
        "    struct internal_option_traits<bool, option_strategy::bool_> {\n    private:\n        using uint_bool = std::uint_least8_t;\n    public:\n        static constexpr std::uintmax_t max_level = 255;")],
 needs='option<bool> nested 255 levels deep',
 breaks='the last level is the byte 0, that is, false',
 demo=PRE+r'''
int main() {
    using tr = opt::option_traits<bool>;
    alignas(8) unsigned char m = 0;
    for (std::uintmax_t l = 0; l < tr::max_level; ++l) { tr::set_level(reinterpret_cast<bool*>(&m), l); if (m < 2) { return 1; } }
    return 0;
}''')
bug(id='b115_ref_slices', property='C12',
 subs=[("""            if (other.has_value()) {
                base::value = base::ref_to_ptr(other.get());""",
"""            if (other.has_value()) {
                std::memcpy(&(base::value), &other, sizeof(base::value));""")],
 needs='assignment from an option<Derived&> where the base is not the first one',
 breaks='the address is not adjusted: the option refers to the wrong subobject',
 demo=PRE+r'''
struct A { int a = 1; }; struct B { int b = 2; }; struct D : A, B {};
int main() {
    D d; opt::option<D&> x{d}; opt::option<B&> y;
    y = x;
    return y.ptr_or_null() == static_cast<B*>(&d) ? 0 : 1;
}''')
