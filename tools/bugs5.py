BUGS = []
def bug(**k): BUGS.append(k)
PRE = '#include <opt/option.hpp>\n#include <cstring>\n#include <cstdint>\n#include <cstdio>\n#include <utility>\n#include <type_traits>\n#include <exception>\n#include <cstdlib>\n'
MA = "        constexpr option_base& operator=(option_base&& other) noexcept(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T>) {"
CC = "        constexpr option_base(const option_base& other) noexcept(std::is_nothrow_copy_constructible_v<T>) {"
bug(id='b66_nx_move_assign', property='C21',
 subs=[(MA, MA.replace(" && std::is_nothrow_move_constructible_v<T>", ""), 3)],
 needs='a type with trivial copy construction, user-provided copy assignment, throwing move construction and nothrow move assignment; move assignment into an empty option',
 breaks='the move assignment is declared noexcept although it may move-construct: the exception ends the program',
 demo=PRE+r'''
struct T { int v = 0; T() = default; T(const T&) = default; T(T&& o) noexcept(false) { if (o.v == 7) { throw 1; } v = o.v; } T& operator=(const T& o) { v = o.v; return *this; } T& operator=(T&& o) noexcept { v = o.v; return *this; } };
int main() {
    std::set_terminate([] { std::_Exit(1); });
    opt::option<T> a, b{std::in_place};
    b->v = 7;
    try { a = std::move(b); } catch (int) { return 0; }
    return 2;
}''')
bug(id='b67_const_member_assign', property='C21',
 subs=[("""    struct enable_copy_move<Tag, true, false, true, false, false> {
        enable_copy_move() = default;
        enable_copy_move(const enable_copy_move&) = default;
        enable_copy_move& operator=(const enable_copy_move&) = delete;
        enable_copy_move(enable_copy_move&&) = default;
        enable_copy_move& operator=(enable_copy_move&&) = delete;""",
 """    struct enable_copy_move<Tag, true, false, true, false, false> {
        enable_copy_move() = default;
        enable_copy_move(const enable_copy_move&) = default;
        enable_copy_move& operator=(const enable_copy_move&) = delete;
        enable_copy_move(enable_copy_move&&) = default;
        enable_copy_move& operator=(enable_copy_move&&) = default;""")],
 needs='a type that is copy and move constructible but neither copy nor move assignable (a const member)',
 breaks='option<T> claims to be move assignable although T is not',
 demo=PRE+r'''
struct T { const int v; };
template<class X> constexpr bool ma = std::is_move_assignable_v<X>;
int main() { return ma<T> == ma<opt::option<T>> ? 0 : 1; }''')
bug(id='b68_nothrow_swap_mixed', property='C21',
 subs=[("""        std::is_nothrow_move_constructible_v<T>
        && std::is_nothrow_move_constructible_v<U>
        && std""", """        std::is_nothrow_move_constructible_v<T>
        && std""")],
 needs='swapping options of two different types, the second of which throws when moved',
 breaks='the mixed swap is declared noexcept although moving the second type may throw: the exception ends the program',
 demo=PRE+r'''
struct A; struct B;
struct B { int v; explicit B(int x) : v(x) {} B(const B&) = default; B(B&& o) noexcept(false) : v(o.v) {} B(A&&); B& operator=(B&&) = default; };
struct A { int v; explicit A(int x) : v(x) {} A(const A&) = default; A(A&& o) noexcept : v(o.v) {} A(B&& b) noexcept(false) : v(b.v) { throw 1; } A& operator=(A&&) = default; };
inline B::B(A&& a) : v(a.v) {}
void swap(A& a, B& b) noexcept { int t = a.v; a.v = b.v; b.v = t; }
void swap(B& b, A& a) noexcept { swap(a, b); }
int main() {
    std::set_terminate([] { std::_Exit(1); });
    opt::option<A> a; opt::option<B> b{std::in_place, 3};
    try { a.swap(b); } catch (int) { return 0; }
    return 2;
}''')
bug(id='b69_nx_copy_ctor', property='C21',
 subs=[(CC, CC.replace("is_nothrow_copy_constructible_v<T>", "is_nothrow_copy_constructible_v<T> || std::is_trivially_move_constructible_v<T>"), 3)],
 needs='a type with throwing copy construction, trivial move construction and non-trivial move assignment',
 breaks='copy construction of option<T> is declared noexcept: an exception from T ends the program',
 demo=PRE+r'''
struct T { int v = 0; T() = default; T(const T& o) : v(o.v) { if (v == 7) { throw 1; } } T(T&&) = default; T& operator=(const T&) = default; T& operator=(T&& o) noexcept { v = o.v; return *this; } };
int main() {
    std::set_terminate([] { std::_Exit(1); });
    opt::option<T> a{std::in_place};
    a->v = 7;
    try { opt::option<T> b{a}; (void)b; } catch (int) { return 0; }
    return 2;
}''')
