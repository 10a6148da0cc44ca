BUGS = []
def bug(**k): BUGS.append(k)
PRE = '#include <opt/option.hpp>\n#include <cstring>\n#include <cstdint>\n#include <cstdio>\n#include <utility>\n'
bug(id='b34_swap_referents', property='C12',
 subs=[("""            swap(base::value, other.base::value);
            return;""", """            if constexpr (std::is_reference_v<T> && std::is_swappable_v<T>) {
                swap(get(), other.get());
            } else {
                swap(base::value, other.base::value);
            }
            return;""")],
 needs='swapping two engaged reference options',
 breaks='swap exchanges the referents instead of rebinding the references',
 demo=PRE+r'''
int main() { int a = 1, b = 2; opt::option<int&> x{a}, y{b}; x.swap(y); return a == 1 && b == 2 && &*x == &b && &*y == &a ? 0 : 1; }''')
bug(id='b50_emplace_keeps', property='C16',
 subs=[("""        reset();
        base::construct(static_cast<Args&&>(args)...);
        return *(*this);""", """        if constexpr (!std::is_trivially_destructible_v<T>) { reset(); }
        base::construct(static_cast<Args&&>(args)...);
        return *(*this);""")],
 needs='emplace into an engaged option of a trivially destructible type whose constructor throws',
 breaks='the option stays engaged over a half-constructed value after the failed emplace',
 demo=PRE+r'''
struct T { int a, b; T(int x) : a(x), b(x) {} T(int x, bool) : a(x) { throw 1; } };
int main() { opt::option<T> o{1}; try { o.emplace(2, true); } catch (int) {} return o.has_value() ? 1 : 0; }''')
bug(id='b51_try_emplace_inner', property='C01',
 subs=[("""        if (!has_value()) {
            base::construct(static_cast<Args&&>(args)...);
        }
        return *(*this);""", """        if constexpr (opt::is_option_v<T>) {
            if (has_value() && !base::value.has_value()) { return emplace(static_cast<Args&&>(args)...); }
        }
        if (!has_value()) {
            base::construct(static_cast<Args&&>(args)...);
        }
        return *(*this);""")],
 needs='try_emplace on an engaged nested option whose inner option is empty',
 breaks='try_emplace replaces the value of an engaged option',
 demo=PRE+r'''
int main() { opt::option<opt::option<int>> o{std::in_place, opt::none}; o.try_emplace(5); return o.has_value() && !o->has_value() ? 0 : 1; }''')
bug(id='b52_ref_conv_assign_keeps', property='C12',
 subs=[("""                base::value = base::ref_to_ptr(static_cast<option<U>&&>(other).get());
            } else {
                reset();
            }""", """                base::value = base::ref_to_ptr(static_cast<option<U>&&>(other).get());
            }""")],
 needs='move-assigning an empty option<T&> to an engaged option<const T&>',
 breaks='the target stays bound',
 demo=PRE+r'''
int main() { int a = 1; opt::option<const int&> x{a}; opt::option<int&> e; x = std::move(e); return x.has_value() ? 1 : 0; }''')
bug(id='b53_ref_amp', property='C12',
 subs=[("""        static constexpr unref_type* ref_to_ptr(T&& other) noexcept {
            return OPTION_ADDRESSOF(other);""", """        static constexpr unref_type* ref_to_ptr(T&& other) noexcept {
            return &other;""")],
 needs='a reference option to an object with an overloaded operator&',
 breaks='the option is bound to whatever operator& returns',
 demo=PRE+r'''
struct A { int x; A* operator&() { return this + 1; } };
int main() { A a[2]{{1}, {2}}; opt::option<A&> o{a[0]}; return o->x == 1 ? 0 : 1; }''')
bug(id='b54_zip_with_void_any', property='C15',
 subs=[("""        if ((options.has_value() && ...)) {
            impl::invoke(static_cast<Fn&&>(fn), static_cast<Options&&>(options).get()...);
        }""", """        if ((options.has_value() || ...)) {
            impl::invoke(static_cast<Fn&&>(fn), static_cast<Options&&>(options).get_unchecked()...);
        }""")],
 needs='zip_with a function returning void over options of which only some are engaged',
 breaks='the function is called although one of the options is empty',
 demo=PRE+r'''
int main() { int n = 0; opt::option<int> a{1}, b; opt::zip_with([&](int, int) { ++n; }, a, b); return n; }''')
bug(id='b55_get_rvalue_component', property='C15',
 subs=[("""[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<OptT>&&>(x)); }""",
        """[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return opt::option<T>{x.has_value() ? opt::option<T>{std::get<T>(x.get())} : opt::none}; }""")],
 needs='get<T> on a const r-value option',
 breaks='a copy of the component is returned instead of the component itself',
 demo=PRE+r'''#include <tuple>
int main() { const opt::option<std::tuple<int, float>> o{std::tuple<int, float>{1, 2.f}}; auto r = opt::get<int>(std::move(o)); return (const void*)&*r == (const void*)&std::get<int>(*o) ? 0 : 1; }''')
bug(id='b56_unzip_self_moves_twice', property='C15',
 subs=[("opt::option<std::tuple_element_t<Idx, TupleLikeType>>{std::get<Idx>(static_cast<Self&&>(self).get())}...", "opt::option<std::tuple_element_t<Idx, TupleLikeType>>{std::move(std::get<Idx>(self.get()))}...")],
 needs='unzip of an l-value option with a component that is changed by a move',
 breaks='the l-value input is moved from',
 demo=PRE+r'''#include <string>
int main() { opt::option<std::pair<std::string, int>> o{std::pair<std::string, int>{std::string(50, 'x'), 1}}; auto u = opt::unzip(o); return o->first.size() == 50 && u.first->size() == 50 ? 0 : 1; }''')
bug(id='b57_hash_nested', property='C18',
 subs=[("""        constexpr std::size_t disengaged_hash = 0;
        return val.has_value() ? val_hash{}(val.get()) : disengaged_hash;
    }
};

template<class T>
struct std::hash<::opt::impl::enable_hash_helper1<
    opt::option<T&>,""", """        constexpr std::size_t disengaged_hash = 0;
        if constexpr (sizeof(val) == sizeof(std::size_t) && std::is_trivially_copyable_v<T> && std::is_arithmetic_v<T>) {
            std::size_t bits = 0;
            if (val.has_value()) { __builtin_memcpy(&bits, &val, sizeof(bits)); }
            return bits == 0 ? disengaged_hash : std::hash<std::size_t>{}(bits);
        } else {
            return val.has_value() ? val_hash{}(val.get()) : disengaged_hash;
        }
    }
};

template<class T>
struct std::hash<::opt::impl::enable_hash_helper1<
    opt::option<T&>,""")],
 needs='hashing options of double (or of a 32 bit number with its separate flag): 0.0 and -0.0 compare equal, padding bytes differ',
 breaks='options that compare equal hash differently',
 demo=PRE+r'''
int main() { opt::option<double> a{0.0}, b{-0.0}; std::hash<opt::option<double>> h; return a == b && h(a) == h(b) ? 0 : 1; }''')
bug(id='b58_io_alt_by_value', property='C22',
 subs=[("    return impl::io_helper2<const opt::option<T>&, const NoneCase&>(x, none_case);", "    return impl::io_helper2<const opt::option<T>&, std::decay_t<const NoneCase>>(x, none_case);")],
 needs='writing an empty option with an alternative whose copy differs from it (an array, a type with identity)',
 breaks='a copy of the alternative is written: an array decays to a pointer',
 demo=PRE+r'''
struct S { std::size_t n = 0; }; 
template<std::size_t N> S& operator<<(S& s, const int (&)[N]) { s.n = N; return s; }
S& operator<<(S& s, const int* const&) { s.n = 1000; return s; }
S& operator<<(S& s, const int&) { return s; }
int main() { S s; const opt::option<int> o; const int alt[3] = {1, 2, 3}; s << opt::io(o, alt); return s.n == 3 ? 0 : 1; }''')
bug(id='b59_hv_and_rvalue', property='C09',
 subs=[("has_value_and(P&& predicate) const&& { return impl::option::has_value_and(static_cast<const option&&>(*this), static_cast<P&&>(predicate)); }", "has_value_and(P&& predicate) const&& { return impl::option::has_value_and(*this, static_cast<P&&>(predicate)) && has_value(); }"),
       ("""            return impl::invoke(static_cast<P&&>(predicate), static_cast<Self&&>(self).get());
        }
        return false;""", """            const auto result = impl::invoke(static_cast<P&&>(predicate), static_cast<Self&&>(self).get());
            return static_cast<unsigned char>(result) != 0;
        }
        return false;""")],
 needs='a predicate that returns an integer whose low byte is zero',
 breaks='has_value_and answers false although the predicate holds (256 is true)',
 demo=PRE+r'''
int main() { opt::option<int> o{256}; return o.has_value_and([](int x) { return x; }) ? 0 : 1; }''')
bug(id='b60_iter_distance', property='C07',
 subs=[("            return static_cast<difference_type>(ptr - right.ptr);", "            return static_cast<int>(reinterpret_cast<const char*>(ptr) - reinterpret_cast<const char*>(right.ptr)) / static_cast<int>(sizeof(value_type));")],
 needs='an element type of more than 2 GiB',
 breaks='end() - begin() is not 1',
 demo=PRE+r'''#include <memory>
#include <new>
#include <cstdlib>
struct Big { char c[3000000000u]; };
int main() { void* p = std::calloc(1, sizeof(opt::option<Big>)); auto* o = new (p) opt::option<Big>; o->emplace(); auto n = o->end() - o->begin(); std::free(p); return n == 1 ? 0 : 1; }''')
bug(id='b61_conv_ctor_empty_ref', property='C02',
 subs=[("""        if (other.has_value()) {
            base::construct(static_cast<option<U>&&>(other).get());
        }
    }
    template<class U,
        typename checks::template from_option_like_ctor<T, U, U&&>::template constructor_is_explicit<true>::type = 0>""", """        if (other.has_value()) {
            base::construct(static_cast<option<U>&&>(other).get());
            if constexpr (std::is_arithmetic_v<T> && std::is_arithmetic_v<U>) { if (base::value == T{}) { base::reset(); } }
        }
    }
    template<class U,
        typename checks::template from_option_like_ctor<T, U, U&&>::template constructor_is_explicit<true>::type = 0>""")],
 needs='converting an r-value option of another arithmetic type that holds zero',
 breaks='an engaged option holding zero becomes empty',
 demo=PRE+r'''
int main() { opt::option<int> a{0}; opt::option<long> b{std::move(a)}; return b.has_value() ? 0 : 1; }''')
bug(id='b62_or_assign_self', property='C11',
 subs=[("""    if (!left.has_value()) {
        left = static_cast<U&&>(right);
    }
    return left;""", """    if constexpr (opt::is_option_v<impl::remove_cvref<U>>) {
        if (!left.has_value() || right.has_value()) {
            if (!left.has_value()) { left = static_cast<U&&>(right); }
            else if constexpr (!std::is_lvalue_reference_v<U>) { right.reset(); }
        }
    } else if (!left.has_value()) {
        left = static_cast<U&&>(right);
    }
    return left;""")],
 needs='|= of an engaged option with an engaged r-value option that is used afterwards',
 breaks='the right operand, which is not selected, is emptied',
 demo=PRE+r'''
int main() { opt::option<int> a{1}, b{2}; a |= std::move(b); return b.has_value() && *b == 2 ? 0 : 1; }''')
bug(id='b63_flag_reset_bool', property='C19',
 subs=[("""            bool_traits::set_level(OPTION_ADDRESSOF(static_cast<base*>(value)->has_value_flag), level);""", """            static_cast<base*>(value)->reset();
            bool_traits::set_level(OPTION_ADDRESSOF(static_cast<base*>(value)->has_value_flag), level);""")],
 needs='a nested option over a type with a destructor and a separate flag, emptied when its storage is not initialised',
 breaks='set_level reads the flag of (and may destroy) an object that does not exist',
 demo=PRE+r'''
int d = 0;
struct T { int x; T(int v) : x(v) {} T(const T& o) : x(o.x) {} T& operator=(const T&) = default; ~T() { ++d; } };
int main() { using O = opt::option<opt::option<T>>; alignas(O) unsigned char b[sizeof(O)]; std::memset(b, 1, sizeof b); O* o = new (b) O; return d == 0 && !o->has_value() ? 0 : 1; }''')
bug(id='b64_take_if_copy_pred', property='C14',
 subs=[("""        if (has_value() && bool(impl::invoke(static_cast<P&&>(predicate), get()))) {
            return take();
        }""", """        if (has_value() && bool(impl::invoke(static_cast<P&&>(predicate), get())) && has_value()) {
            option tmp{*this};
            reset();
            return tmp;
        }""")],
 needs='take_if of an element whose copy differs from a move',
 breaks='take_if copies the element',
 demo=PRE+r'''#include <memory>
int c = 0; struct T { T() {} T(const T&) { ++c; } T(T&&) noexcept {} T& operator=(T&&) { return *this; } T& operator=(const T&) { return *this; } };
int main() { opt::option<T> o{std::in_place}; auto r = o.take_if([](T&) { return true; }); return c; }''')
bug(id='b65_at_const_index', property='C13',
 subs=[("    if (index >= container.size()) { return opt::option<type>{opt::none}; }", "    if (static_cast<std::ptrdiff_t>(index) >= static_cast<std::ptrdiff_t>(container.size())) { return opt::option<type>{opt::none}; }")],
 needs='an index above PTRDIFF_MAX, such as size_t(-1)',
 breaks='the container is indexed out of bounds',
 demo=PRE+r'''
struct C { bool* hit; std::size_t size() const { return 3; } int* p; int& operator[](std::size_t i) { if (i >= 3) { *hit = true; i = 0; } return p[i]; } };
int main() { int d[3] = {1, 2, 3}; bool hit = false; C c{&hit, d}; (void)opt::at(c, std::size_t(-1)); return hit ? 1 : 0; }''')
