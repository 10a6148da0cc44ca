BUGS = []
def bug(**k): BUGS.append(k)
PRE = '#include <opt/option.hpp>\n#include <cstring>\n#include <cstdint>\n#include <cstdio>\n'
bug(id='b01_member_pointer_null', property='C04',
 subs=[("offset_start = 0xFFFFFFFF'D3B2F9B2", "offset_start = 0xFFFFFFFF'FFFFFFFE")],
 needs='a doubly nested option over a pointer to data member, engaged with the null member pointer (all ones)',
 breaks='level 1 of member pointers is the null pointer to data member, which is then read as emptiness',
 demo=PRE+r'''
struct S { int a; };
int main() {
    int S::* n = nullptr;
    opt::option<opt::option<int S::*>> o{opt::option<int S::*>{n}};
    if (!o.has_value() || !o->has_value() || **o != nullptr) return 1;
    return 0;
}''')
bug(id='b04_sentinel_range_signed', property='C17',
 subs=[("max_level = sentinel_range_end - sentinel_range_start + 1;", "max_level = std::uintmax_t(underlying(sentinel_range_end - sentinel_range_start)) + 1;")],
 needs='an enumeration with a signed 8 or 16 bit underlying type whose reserved range spans more than half of it',
 breaks='the size of the range overflows the underlying type, so far more levels are claimed than exist',
 demo=PRE+r'''
enum class E : signed char { SENTINEL_START = -100, SENTINEL_END = 100, a = 101 };
int main() { return opt::option_traits<E>::max_level == 201 ? 0 : 1; }''')
bug(id='b05_tuple_max_not_updated', property='C17',
 subs=[("                max_value = *it;\n                idx = i;", "                idx = i;")],
 needs='a tuple of three or more elements in which the one with most reserved values lies strictly between two others, the later of which still reserves more than the first',
 breaks='the last element with more levels than the first is chosen, not the one with most',
 demo=PRE+r'''#include <tuple>
#include <string>
int main() {
    using T = std::tuple<int, int*, std::string>;
    return opt::option_traits<T>::max_level == opt::option_traits<int*>::max_level ? 0 : 1;
}''')
bug(id='b25_take_if_through_temporary', property='C14',
 subs=[("""        if (has_value() && bool(impl::invoke(static_cast<P&&>(predicate), get()))) {
            return take();
        }
        return opt::none;""", """        if (has_value()) {
            option tmp{take()};
            if (bool(impl::invoke(static_cast<P&&>(predicate), tmp.get()))) {
                return tmp;
            }
            *this = static_cast<option&&>(tmp);
        }
        return opt::none;""")],
 needs='take_if with a predicate that throws, or that looks at the option or the address of the element',
 breaks='the element is taken out before the predicate decides: a predicate that throws loses it',
 demo=PRE+r'''#include <string>
int main() {
    opt::option<std::string> o{std::string("a string that lives on the heap for sure")};
    try { auto r = o.take_if([](std::string&) -> bool { throw 1; }); } catch (int) {}
    return o.has_value() && o->size() == 40 ? 0 : 1;
}''')
bug(id='b26_swap_copies', property='C14',
 subs=[("        base::construct(static_cast<U&&>(other.get()));\n", "        if constexpr (std::is_copy_constructible_v<U>) {\n            base::construct(other.get());\n        } else {\n            base::construct(static_cast<U&&>(other.get()));\n        }\n")],
 needs='swap of an empty left option with an engaged right one over a type whose copy differs from its move',
 breaks='swap copies the element instead of moving it',
 demo=PRE+r'''
struct M { int v; M(int x) : v(x) {} M(const M& o) : v(o.v + 100) {} M(M&& o) : v(o.v) {} M& operator=(const M&) = default; };
int main() {
    opt::option<M> a{1}, b;
    int v0 = a->v;
    b.swap(a);
    return b.has_value() && b->v == v0 && !a.has_value() ? 0 : 1;
}''')
bug(id='b28_unzip_copies', property='C15',
 subs=[("std::get<Idx>(static_cast<Self&&>(self).get())}...", "std::get<Idx>(self.get())}...")],
 needs='unzip of an rvalue option whose tuple parts have a move that differs from their copy',
 breaks='the parts of an rvalue are copied',
 demo=PRE+r'''#include <tuple>
struct M { int v; M(int x) : v(x) {} M(const M& o) : v(o.v + 100) {} M(M&& o) : v(o.v) { o.v = -1; } };
int main() {
    opt::option<std::tuple<M, int>> o; o.emplace(1, 2);
    auto r = opt::unzip(static_cast<opt::option<std::tuple<M, int>>&&>(o));
    return std::get<0>(r)->v == 1 && std::get<0>(*o).v == -1 ? 0 : 1;
}''')
