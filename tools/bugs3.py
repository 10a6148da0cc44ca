BUGS = []
def bug(**k): BUGS.append(k)
PRE = '#include <opt/option.hpp>\n#include <cstring>\n#include <cstdint>\n#include <cstdio>\n'
bug(id='b04_sentinel_level_narrow', property='C17',
 subs=[("return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);", "return std::uintmax_t(underlying(val - sentinel_range_start));", 2)],
 needs='an enumeration with a signed 8 bit underlying type, a reserved range of more than 128 values, and a reserved value in its upper half',
 breaks='the level of the upper half of the range is sign extended, so those declared reserved values are taken for values',
 demo=PRE+r'''
enum class E : signed char { SENTINEL_START = -100, SENTINEL_END = 100, a = 101 };
int main() {
    using tr = opt::option_traits<E>;
    for (unsigned i = 0; i < 201; ++i) { E e = E::a; tr::set_level(&e, i); if (tr::get_level(&e) != i) return 1; }
    return 0;
}''')
bug(id='b33_in_place_braces', property='C01',
 subs=[("""            : value(static_cast<Args&&>(args)...), has_value_flag(true) {}""", """            : value{static_cast<Args&&>(args)...}, has_value_flag(true) {}""", 2)],
 needs='an element type with a non-trivial destructor, a separate flag and an initializer_list constructor, built in place from arguments that also fit that list',
 breaks='in-place construction picks the initializer_list constructor: option<list<int>>(in_place, 3, 7) holds {3, 7}',
 demo=PRE+r'''#include <list>
int main() { opt::option<std::list<int>> o{std::in_place, 3, 7}; return o && o->size() == 3 ? 0 : 1; }''')
bug(id='b34_swap_referents', property='C12',
 subs=[("""            swap(base::value, other.base::value);
            return;""", """            swap(get(), other.get());
            return;""")],
 needs='swapping two engaged reference options',
 breaks='swap exchanges the referents instead of rebinding the references',
 demo=PRE+r'''
int main() { int a = 1, b = 2; opt::option<int&> x{a}, y{b}; x.swap(y); return a == 1 && b == 2 && &*x == &b && &*y == &a ? 0 : 1; }''')
bug(id='b35_at_index_unsigned', property='C13',
 subs=[("at(T&& container OPTION_LIFETIMEBOUND, const std::size_t index) noexcept {", "at(T&& container OPTION_LIFETIMEBOUND, const unsigned index) noexcept {")],
 needs='an index that does not fit into 32 bits',
 breaks='the index is truncated: at(v, 1ull << 32) yields element 0',
 demo=PRE+r'''#include <vector>
int main() { std::vector<int> v{1, 2}; return opt::at(v, std::size_t(1) << 32).has_value() ? 1 : 0; }''')
bug(id='b36_zip_with_void_any', property='C15',
 subs=[("""        if ((options.has_value() && ...)) {
            impl::invoke(static_cast<Fn&&>(fn), static_cast<Options&&>(options).get_unchecked()...);
        }""", "") if False else ("return opt::option<fn_result>{impl::invoke(static_cast<Fn&&>(fn), static_cast<Options&&>(options).get()...)};",
 "auto zipped = opt::zip(static_cast<Options&&>(options)...); return opt::option<fn_result>{std::apply(static_cast<Fn&&>(fn), *zipped)};")],
 needs='zip_with over an l-value option of a non-reference, with a function that takes its argument by reference',
 breaks='the function is handed copies of the contained values, not the values themselves',
 demo=PRE+r'''#include <tuple>
int main() { opt::option<int> a{1}, b{2}; auto r = opt::zip_with([](int& x, int& y) -> int* { x = 5; return &y; }, a, b); return *a == 5 && *r == &*b ? 0 : 1; }''')
bug(id='b37_swap_reset_first', property='C16',
 subs=[("        base::construct(static_cast<U&&>(other.get()));\n", "        std::remove_cv_t<U> tmp(static_cast<U&&>(other.get()));\n        other.reset();\n        base::construct(static_cast<U&&>(tmp));\n")],
 needs='swapping an empty option with an engaged one when the second move constructor call throws',
 breaks='the value is lost: both options are empty afterwards',
 demo=PRE+r'''
int n = 0;
struct T { int v; explicit T(int x) : v(x) {} T(T&& o) : v(o.v) { if (++n == 2) throw 1; } T& operator=(T&&) = default; ~T() {} };
int main() {
    opt::option<T> a{std::in_place, 1}, b;
    try { b.swap(a); } catch (int) { return a.has_value() || b.has_value() ? 0 : 1; }
    return 0;
}''')
bug(id='b38_hash_unchecked', property='C18',
 subs=[("return val.has_value() ? val_hash{}(val.get()) : disengaged_hash;", "const std::size_t value_hash = val_hash{}(val.get_unchecked());\n        return val.has_value() ? value_hash : disengaged_hash;")],
 needs='hashing an empty option of a type whose hash reads through the value',
 breaks='std::hash is applied to the absent value',
 demo=PRE+r'''
struct T { int* p; explicit T(int* q) : p(q) {} };
static int bad = 0;
template<> struct std::hash<T> { std::size_t operator()(const T& t) const { if (t.p != &bad) bad = 1; return 5; } };
int main() { opt::option<T> o; std::size_t h = std::hash<opt::option<T>>{}(o); return bad != 0 || h != 0; }''')
bug(id='b39_make_option_braces', property='C20',
 subs=[("""[[nodiscard]] constexpr option<T> make_option(Args&&... args) {
    return option<T>{std::in_place, static_cast<Args&&>(args)...};""", """[[nodiscard]] constexpr option<T> make_option(Args&&... args) {
    if constexpr (sizeof...(Args) == 0) {
        return option<T>{std::in_place};
    } else {
        return option<T>{static_cast<Args&&>(args)...};
    }""")],
 needs='make_option<option<T>>(none)',
 breaks='the nested option is empty instead of holding an empty option',
 demo=PRE+r'''
int main() { auto o = opt::make_option<opt::option<int>>(opt::none); return o.has_value() && !o->has_value() ? 0 : 1; }''')
bug(id='b40_io_in_copy', property='C22',
 subs=[("            istream >> x.value.get();", "            auto tmp = x.value.get();\n            istream >> tmp;\n            x.value.get() = tmp;")],
 needs='a stream that throws after having stored into its argument',
 breaks='what the stream stored before it threw does not reach the contained value',
 demo=PRE+r'''
struct S {};
S& operator>>(S& s, int& v) { v = 7; throw 1; return s; }
int main() { S s; opt::option<int> o{1}; int alt = 0; try { s >> opt::io(o, alt); } catch (int) {} return *o == 7 && alt == 0 ? 0 : 1; }''')
bug(id='b41_addressof_ptr', property='C07',
 subs=[("std::remove_reference_t<T&>* ptr_or_null() noexcept OPTION_LIFETIMEBOUND {\n        return has_value() ? OPTION_ADDRESSOF(get()) : nullptr;", "std::remove_reference_t<T&>* ptr_or_null() noexcept OPTION_LIFETIMEBOUND {\n        return has_value() ? &get() : nullptr;")],
 needs='an element type that overloads unary operator&',
 breaks='ptr_or_null returns whatever the overloaded operator& returns',
 demo=PRE+r'''
struct T { int a; T* operator&() { return nullptr; } const T* operator&() const { return nullptr; } };
int main() { opt::option<T> o{T{1}}; return o.ptr_or_null() == std::addressof(*o) ? 0 : 1; }'''.replace('struct T', '#include <memory>\nstruct T'))
bug(id='b42_xor_consumes', property='C11',
 subs=[("""[[nodiscard]] constexpr opt::option<T> operator^(opt::option<T>&& left, opt::option<T>&& right) {
    if (left.has_value() && !right.has_value()) {
        return static_cast<opt::option<T>&&>(left);
    }
    if (!left.has_value() && right.has_value()) {
        return static_cast<opt::option<T>&&>(right);
    }
    return opt::none;""", """[[nodiscard]] constexpr opt::option<T> operator^(opt::option<T>&& left, opt::option<T>&& right) {
    opt::option<T> res{static_cast<opt::option<T>&&>(left)};
    if (!right.has_value()) {
        return res;
    }
    if (!res.has_value()) {
        return static_cast<opt::option<T>&&>(right);
    }
    return opt::none;""")],
 needs='a ^ b with two engaged r-value options whose elements change when moved from',
 breaks='the left operand is consumed although it is not selected',
 demo=PRE+r'''#include <vector>
int main() { opt::option<std::vector<int>> a{std::vector<int>{1,2}}, b{std::vector<int>{3}}; auto r = std::move(a) ^ std::move(b); return !r && a && a->size() == 2 ? 0 : 1; }''')
bug(id='b43_reference_level_zero', property='C05',
 subs=[("static constexpr std::uint64_t nan_start = 0b1'11111111111'0110110001111001111101010101101100001000100110001111;", "static constexpr std::uint64_t nan_start = 0b1'11111111111'1000000000000000000000000000000000000000000000000000;")],
 needs='the default quiet NaN with the sign bit set (what x86 produces for 0.0/0.0)',
 breaks='the x86 default NaN is the empty state: option<double>{0.0/0.0} is empty',
 demo=PRE+r'''
int main() { std::uint64_t u = 0xFFF8000000000000u; double d; std::memcpy(&d, &u, 8); double x[2] = {d, d}; opt::option<opt::option<double>> o; std::memcpy((void*)&o, x, 8); return o.has_value() && o->has_value() ? 0 : 1; }''')
BUGS[-1].update(id='b43_default_nan', property='C04')
bug(id='b44_sentinel_f_args', property='C17',
 subs=[("if (Compare{}(value, Value)) { return I; }", "if (Compare{}(Value, value)) { return I; }")],
 needs='a sentinel_f whose comparison is not symmetric',
 breaks='the user supplied comparison is called with its arguments exchanged',
 demo=PRE+r'''
struct Cmp { bool operator()(const int& x, int limit) const { return x < limit; } };
struct Set { void operator()(int& x, int limit) const { x = limit - 1; } };
int main() { opt::option<opt::sentinel_f<int, Cmp, Set, 0>> o{5}; if (!o) return 1; o.reset(); return o ? 1 : 0; }''')
bug(id='b45_value_or_construct_braces', property='C08',
 subs=[("                return T(static_cast<Args&&>(args)...);", "                return T{static_cast<Args&&>(args)...};")],
 needs='value_or_construct on an empty option of a type with an initializer_list constructor whose arguments also fit that list',
 breaks='the fallback is built through the initializer_list constructor',
 demo=PRE+r'''#include <list>
int main() { opt::option<std::list<int>> o; return o.value_or_construct(3, 7).size() == 3 ? 0 : 1; }''')
bug(id='b46_const_arrow_unchecked', property='C19',
 subs=[("""std::remove_reference_t<const T&>* operator->() const noexcept OPTION_LIFETIMEBOUND {
        OPTION_VERIFY(has_value(), "Accessing the value of an empty opt::option<T>");
        return OPTION_ADDRESSOF(get());""", """std::remove_reference_t<const T&>* operator->() const noexcept OPTION_LIFETIMEBOUND {
        return ptr_or_null();""")],
 needs='operator-> on a const empty option in a debug build',
 breaks='the access is not stopped at a check; a null pointer is returned',
 demo=PRE+r'''#include <unistd.h>
#include <sys/wait.h>
#include <csignal>
struct T { int a; };
int main() {
    pid_t p = fork();
    if (p == 0) { std::freopen("/dev/null", "w", stderr); const opt::option<T> o; const T* q = o.operator->(); _exit(q == nullptr ? 7 : 8); }
    int st; waitpid(p, &st, 0);
    return WIFSIGNALED(st) ? 0 : 1;
}''')
bug(id='b47_conv_assign_value_reset', property='C03',
 subs=[("""                if (has_value()) {
                    base::value = static_cast<option<U>&&>(other).get();
                    OPTION_VERIFY(has_value(), "After assignment, the value is in an empty state");
                } else {
                    base::construct(static_cast<option<U>&&>(other).get());
                }""", """                if constexpr (std::is_trivially_copy_constructible_v<std::remove_cv_t<T>>) {
                    base::construct(static_cast<option<U>&&>(other).get());
                } else {
                    reset();
                    base::construct(static_cast<option<U>&&>(other).get());
                }""")],
 needs='converting move assignment to an engaged option when the conversion throws',
 breaks='the old element is gone and the option empty, where assignment should have acted on the live element',
 demo=PRE+r'''
struct A { int v; A(int x) : v(x) {} A(const A& o) : v(o.v) {} A& operator=(int&& x) { v = x + 100; return *this; } A& operator=(const A&) = default; ~A() {} };
int main() { opt::option<A> a{std::in_place, 1}; opt::option<int> b{2}; a = std::move(b); return a->v == 102 ? 0 : 1; }''')
BUGS[-1].update(property='C02')
bug(id='b48_filter_inspect_const', property='C09',
 subs=[("""            return impl::invoke(static_cast<P&&>(predicate), static_cast<Self&&>(self).get());
        }
        return false;""", """            return !!impl::invoke(static_cast<P&&>(predicate), static_cast<Self&&>(self).get());
        }
        return !true;""")],
 needs='-', breaks='-', demo='')
BUGS.pop()
bug(id='b48_map_const_rvalue', property='C09',
 subs=[("""return opt::option<f_result>{construct_from_invoke_tag{}, static_cast<F&&>(f), *static_cast<Self&&>(self)};""",
        """if constexpr (std::is_trivially_copyable_v<T>) {
                auto tmp = *self;
                return opt::option<f_result>{construct_from_invoke_tag{}, static_cast<F&&>(f), static_cast<decltype(*static_cast<Self&&>(self))>(tmp)};
            } else {
                return opt::option<f_result>{construct_from_invoke_tag{}, static_cast<F&&>(f), *static_cast<Self&&>(self)};
            }""")],
 needs='map over an l-value option of a trivially copyable type with a function that writes through its argument or returns its address',
 breaks='the function is applied to a copy of the contained value',
 demo=PRE+r'''
int main() { opt::option<int> o{1}; auto r = o.map([](int& x) { x = 9; return &x; }); return *o == 9 && *r == &*o ? 0 : 1; }''')
bug(id='b49_and_then_dangling', property='C14',
 subs=[("""        option tmp{static_cast<option&&>(*this)};
        reset();
        return tmp;""", """        option tmp{static_cast<option&&>(*this)};
        if constexpr (!impl::is_trivially_destructible_v<T>) {
            reset();
        } else if constexpr (opt::option_traits<std::remove_cv_t<T>>::max_level > 0 && sizeof(T) == sizeof(option)) {
            *this = option{};
        } else {
            base::reset();
        }
        return tmp;""")],
 needs='-', breaks='-', demo='')
BUGS.pop()
bug(id='b49_or_else_moves_state', property='C10',
 subs=[("""    if (left_has_value && right_has_value) { return left.get() < right.get(); }
    return left_has_value < right_has_value;""", """    if (left_has_value && right_has_value) { return !(left.get() >= right.get()); }
    return left_has_value < right_has_value;""")],
 needs='comparing options of floating point values of which one is NaN',
 breaks='option{1.0} < option{NaN} is true',
 demo=PRE+r'''#include <limits>
int main() { opt::option<float> a{1.f}, b{std::numeric_limits<float>::quiet_NaN()}; return a < b ? 1 : 0; }''')
BUGS[-1].update(id='b49_lt_negated_ge')
