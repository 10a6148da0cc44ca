BUGS = []
def bug(**k): BUGS.append(k)
PRE = '#include <opt/option.hpp>\n#include <cstring>\n#include <cstdint>\n#include <cstdio>\n#include <utility>\n#include <type_traits>\n#include <exception>\n#include <cstdlib>\n#include <string>\n#include <vector>\n#include <map>\n#include <set>\n#include <array>\n'
bug(id='b70_ilist_rvalue_copies', property='C08',
 subs=[("(std::initializer_list<U> ilist, Args&&... args) && { return impl::option::value_or_construct<std::remove_cv_t<T>>(static_cast<option&&>(*this), ilist",
        "(std::initializer_list<U> ilist, Args&&... args) && { return impl::option::value_or_construct<std::remove_cv_t<T>>(*this, ilist")],
 needs='value_or_construct with an initializer list on an r-value engaged option',
 breaks='the contained value is copied instead of moved out',
 demo=PRE+r'''
struct T { int copies = 0; std::vector<int> v; T(std::initializer_list<int> l) : v(l) {} T(const T& o) : copies(o.copies + 1), v(o.v) {} T(T&& o) = default; T& operator=(const T&) = default; };
int main() {
    opt::option<T> a{std::in_place, {1, 2}};
    T r = std::move(a).value_or_construct({3, 4});
    return r.copies == 0 && r.v.size() == 2 && r.v[0] == 1 ? 0 : 1;
}''')
bug(id='b71_map_or_const_rvalue', property='C08',
 subs=[("map_or(U&& def, F&& f) const&& { return impl::option::map_or<T>(static_cast<const option&&>(*this),",
        "map_or(U&& def, F&& f) const&& { return impl::option::map_or<T>(*this,")],
 needs='map_or on a const r-value option with a function that distinguishes the value category',
 breaks='the function receives a const l-value instead of a const r-value',
 demo=PRE+r'''
struct F { int operator()(const std::string&) const { return 1; } int operator()(const std::string&&) const { return 2; } };
int main() {
    const opt::option<std::string> a{"x"};
    return std::move(a).map_or(0, F{}) == 2 ? 0 : 1;
}''')
bug(id='b72_and_rvalue_copy', property='C11',
 subs=[("""[[nodiscard]] constexpr opt::option<U> operator&(const opt::option<T>& left, opt::option<U>&& right) {
    if (left.has_value()) {
        return static_cast<opt::option<U>&&>(right);""",
"""[[nodiscard]] constexpr opt::option<U> operator&(const opt::option<T>& left, opt::option<U>&& right) {
    if (left.has_value()) {
        return opt::option<U>{static_cast<const opt::option<U>&>(right)};""")],
 needs='operator& with an engaged left and an r-value right operand whose element counts copies',
 breaks='the right operand is copied instead of moved',
 demo=PRE+r'''
struct T { int copies = 0; T() = default; T(const T& o) : copies(o.copies + 1) {} T(T&& o) noexcept : copies(o.copies) {} };
int main() {
    opt::option<int> a{1};
    opt::option<T> b{std::in_place};
    auto r = a & std::move(b);
    return r.has_value() && r->copies == 0 ? 0 : 1;
}''')
bug(id='b73_flatten_copies', property='C15',
 subs=[("            return opt.has_value() ? opt::option<result_type>{static_cast<Option&&>(opt).get()} : opt::none;",
        "            return opt.has_value() ? opt::option<result_type>{static_cast<impl::copy_lvalue_reference_t<impl::remove_cvref<result_type>, const Option&>>(opt.get())} : opt::none;")],
 needs='flattening an r-value nested option whose element counts copies',
 breaks='the innermost value is copied instead of moved',
 demo=PRE+r'''
struct T { int copies = 0; T() = default; T(const T& o) : copies(o.copies + 1) {} T(T&& o) noexcept : copies(o.copies) {} };
int main() {
    opt::option<opt::option<T>> a{std::in_place, std::in_place};
    int before = (*a)->copies;
    auto r = opt::flatten(std::move(a));
    return r.has_value() && r->copies == before ? 0 : 1;
}''')
bug(id='b74_conv_move_assign_copies', property='C02',
 subs=[("                    base::value = static_cast<option<U>&&>(other).get();", "                    base::value = other.get();")],
 needs='assigning an engaged r-value option<U> to an engaged option<T>, with U only distinguishable by being moved',
 breaks='the value is copied out of the source instead of moved',
 demo=PRE+r'''
struct B { int copies = 0; B() = default; };
struct A { int how = 0; A() = default; A(const B&) : how(1) {} A(B&&) : how(2) {} A& operator=(const B&) { how = 3; return *this; } A& operator=(B&&) { how = 4; return *this; } };
int main() {
    opt::option<A> a{std::in_place};
    opt::option<B> b{std::in_place};
    a = std::move(b);
    return a->how == 4 ? 0 : 1;
}''')
bug(id='b75_iter_minus_unchecked', property='C19',
 subs=[("""        [[nodiscard]] constexpr option_iterator operator-(const difference_type offset) const noexcept {
            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
""", """        [[nodiscard]] constexpr option_iterator operator-(const difference_type offset) const noexcept {
""")],
 needs='subtracting a non-zero offset from a value-initialized iterator with checks enabled',
 breaks='the documented check is gone: the seek goes through unnoticed',
 demo=r'''#include <cstdlib>
#define OPTION_VERIFY(expression, message) static_cast<void>((expression) ? 0 : (std::_Exit(0), 0))
#define OPTION_VERIFY_FAILED
''' + PRE + r'''
int main() {
    opt::option<int>::iterator it{};
    volatile std::ptrdiff_t n = 1;
    auto r = it - n; (void)r;
    return 1;
}''')
bug(id='b76_lookup_set_key_moved', property='C13',
 subs=[("""    auto it = associative_container.find(static_cast<K&&>(key));
    if constexpr (impl::has_mapped_type<impl::remove_cvref<T>>) {""",
"""    if (associative_container.count(static_cast<K&&>(key)) > 1) {
        using found = decltype(impl::lookup_type(associative_container));
    }
    auto it = associative_container.find(static_cast<K&&>(key));
    if constexpr (impl::has_mapped_type<impl::remove_cvref<T>>) {""")],
 needs='x', breaks='x', demo=PRE)
bug(id='b77_hash_const_ref', property='C18',
 subs=[("""        return val.has_value() ? val_hash{}(val.get()) : disengaged_hash;""",
"""        return val.has_value() ? val_hash{}(val.get()) ^ (reinterpret_cast<std::uintptr_t>(&val) & 0) : std::size_t(std::is_const_v<T>);""")],
 needs='x', breaks='x', demo=PRE)
bug(id='b78_io_in_alt_flag', property='C22',
 subs=[("""        if (x.value.has_value()) {
            istream >> x.value.get();
        } else {
            istream >> x.none_case;
        }
        return istream;""",
"""        if (x.value.has_value()) {
            istream >> x.value.get();
        }
        if (!x.value.has_value()) {
            istream >> x.none_case;
        }
        return istream;""")],
 needs='reading into an engaged option through a stream whose extraction empties the option itself',
 breaks='the alternative is read too when extraction resets the option: two reads instead of one',
 demo=PRE+r'''
struct S { opt::option<int>* o = nullptr; int reads = 0; };
S& operator>>(S& s, int&) { ++s.reads; if (s.o) { s.o->reset(); } return s; }
int main() {
    opt::option<int> a{1}; int alt = 2; S s; s.o = &a;
    s >> opt::io(a, alt);
    return s.reads == 1 ? 0 : 1;
}''')
bug(id='b79_enum_max_level', property='C05',
 subs=[],needs='x',breaks='x',demo=PRE)
BUGS = [b for b in BUGS if b['needs'] != 'x']
